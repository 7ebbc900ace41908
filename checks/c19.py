"""C19: the named families have the parameters that their names promise."""
import itertools
import math as pymath

import galois
import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise
from vf.proofs import groups as proofs
from qldpc import codes
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 80, 700
A = spec.A
CL, QU = "qldpc.codes.classical.", "qldpc.codes.quantum."
WORDS = 1 << 18  # words enumerated by the oracle
ASK = 1 << 12  # words that the real (slow, non-binary) enumeration may be asked to visit


def dist_of_generator(G, q):
    """Minimum weight of the row space of G, if it can be enumerated."""
    G = la.rref(G, q)[0]
    if q ** len(G) > WORDS:
        return None
    return spec.min_weight_classical(G, q)


def same(a, b):
    return a == b or (np.isnan(a) and np.isnan(b))


@contract([CL + f"{c}.__init__" for c in ("RepetitionCode", "RingCode", "HammingCode", "ExtendedHammingCode", "ReedSolomonCode",
                                          "BCHCode", "ReedMullerCode", "SimplexCode", "TannerCode")])
def classical(code, q, n, k, d):
    """[n, k, d] is the family's promise (d may be None)."""
    H = A(code.matrix)
    check(code.field.order == q, f"field of order {code.field.order}")
    check(H.min(initial=0) >= 0 and H.max(initial=0) < q, "entries outside of the field")
    check(len(code) == code.num_bits == n and H.shape[1] == n, f"length {len(code)} != {n}")
    check(n - la.rank(H, q) == k, f"the checks define a code of dimension {n - la.rank(H, q)} != {k}")
    check(code.dimension == k, f"dimension {code.dimension} != {k}")
    check(code.rank == n - k, "rank")
    G = A(code.generator)
    check(G.shape[1] == n and not la.matmul(H, G.T, q).any(), "the generator does not satisfy the parity checks")
    check(la.rank(G, q) == k, "the generator does not generate the code")
    true = dist_of_generator(la.nullspace(H, q), q)
    if d is not None:
        claimed = code.get_distance()
        check(same(claimed, d), f"distance {claimed} != {d}")
    if true is not None:
        if d is not None:
            check(true == d, f"the true distance is {true}, not {d}")
        if d is not None or q == 2 or q**k <= ASK:
            check(same(code.get_distance(), true), f"claimed distance {code.get_distance()}, true distance {true}")
        if q**k <= ASK or q == 2:
            check(same(code.get_distance_exact(), true), "exact distance")
    if d is not None or true is not None and (q == 2 or q**k <= ASK):
        p = code.get_code_params()
        check(tuple(p[:2]) == (n, k) and same(p[2], true if d is None else d), f"code parameters {p}")


def classical_family(ctx):
    fields = (2, 3, 4, 5, 7, 8, 9)
    for q in fields:
        for n in range(1, ctx.n(9, 24)):
            ctx.case(f"rep-{q}-{n}", lambda: classical(codes.RepetitionCode(n, q), q, n, 1, n))
            ctx.case(f"ring-{q}-{n}", lambda: classical(codes.RingCode(n, q), q, n, 1, n))
        for r in range(2, 7):
            n = (q**r - 1) // (q - 1)
            if n <= ctx.n(64, 600):
                def hamming():
                    code = codes.HammingCode(r, q)
                    classical(code, q, n, n - r, 3)
                    H = A(code.matrix)
                    # no two columns are parallel, and all directions are present
                    normal = {tuple(la.mul(col, la_inverse(next(c for c in col if c), q), q)) for col in H.T}
                    check(len(normal) == n, "two columns are parallel")
                    min_dist3(H, q)
                ctx.case(f"hamming-{q}-{r}", hamming)
    ctx.case("rep-default", lambda: classical(codes.RepetitionCode(4), 2, 4, 1, 4))
    ctx.case("ring-default", lambda: classical(codes.RingCode(4), 2, 4, 1, 4))
    ctx.case("hamming-default", lambda: classical(codes.HammingCode(3), 2, 7, 4, 3))
    for r in range(2, ctx.n(7, 9)):
        def ext():
            code = codes.ExtendedHammingCode(r)
            classical(code, 2, 2**r, 2**r - r - 1, 4)
            H = A(code.matrix)
            R = A(la.nullspace(H, 2))
            check(not (R.sum(axis=1) % 2).any(), "words of odd weight")
            min_dist3(H, 2)
            if r <= 6:  # documented: equal to ReedMullerCode(r - 2, r), up to the order of bits
                check(sorted(np.count_nonzero(la.words(la.rref(H, 2)[0], 2), axis=1))
                      == sorted(np.count_nonzero(la.words(la.rref(A(codes.ReedMullerCode(r - 2, r).matrix), 2)[0], 2), axis=1)),
                      "duals of the extended Hamming and Reed-Muller codes have different weights")
        ctx.case(f"exthamming-{r}", ext)
    for dim in range(2, 8):
        def simplex():
            code = codes.SimplexCode(dim)
            classical(code, 2, 2**dim - 1, dim, 2 ** (dim - 1))
            W = la.words(A(code.generator), 2)
            check(set(np.count_nonzero(W, axis=1)) == {0, 2 ** (dim - 1)}, "weights of the simplex code")
        ctx.case(f"simplex-{dim}", simplex)
    for dim in (0, 1, 8):
        ctx.case(f"simplex-{dim}", must_raise, ValueError, codes.SimplexCode, dim)


def la_inverse(c, q):
    return int(galois.GF(q)(1) / galois.GF(q)(int(c)))


def min_dist3(H, q):
    """d >= 3: columns nonzero and pairwise independent."""
    check(H.any(axis=0).all(), "zero column: distance 1")
    seen = set()
    for col in H.T:
        v = tuple(int(x) for x in la.mul(col, la_inverse(next(c for c in col if c), q), q))
        check(v not in seen, "parallel columns: distance 2")
        seen.add(v)


@contract([CL + "ReedMullerCode.get_generator"])
def rm_generator(r, m, q):
    """Over GF(2), R(r, m) is the set of evaluations of polynomials of degree at most r."""
    points = list(itertools.product([0, 1], repeat=m))
    E = np.array([[int(all(p[i] for i in S)) for p in points] for t in range(r + 1) for S in itertools.combinations(range(m), t)]).reshape(-1, 2**m)
    G = A(codes.ReedMullerCode.get_generator(r, m))
    check(la.rank(G, 2) == len(G) == len(E), "rows of the generator are dependent")
    check(la.same_span(G, E, 2), "the generator does not generate the Reed-Muller code")
    if q == 2:
        check(la.same_span(A(codes.ReedMullerCode(r, m).generator), E, 2), "ReedMullerCode")


def reed_muller(ctx):
    for m in range(0, ctx.n(6, 8)):
        for r in range(0, m + 1):
            for q in (2, None, 3, 4):
                if q in (3, 4) and m > 4:
                    continue
                def run():
                    code = codes.ReedMullerCode(r, m) if q is None else codes.ReedMullerCode(r, m, q)
                    k = sum(pymath.comb(m, i) for i in range(r + 1))
                    classical(code, q or 2, 2**m, k, 2 ** (m - r))
                    rm_generator(r, m, q or 2)
                ctx.case(f"rm-{r}-{m}-{q}", run)
    for r, m in [(-1, 2), (3, 2), (0, -1), (1, 0)]:
        ctx.case(f"rm-bad-{r}-{m}", must_raise, ValueError, codes.ReedMullerCode, r, m)
        ctx.case(f"rmgen-bad-{r}-{m}", must_raise, ValueError, codes.ReedMullerCode.get_generator, r, m)


def roots_code(ctx):
    def rs(n, k):
        code = codes.ReedSolomonCode(n, k)
        q = code.field.order
        ref = galois.ReedSolomon(n, k)
        check(q == ref.field.order, "field of the Reed-Solomon code")
        classical(code, q, n, k, None)
        # maximum distance separable: any n - k columns of H are independent
        H = A(code.matrix)
        r = la.rank(H, q)
        combos = list(itertools.combinations(range(n), r))
        rng = ctx.rng(f"{n}-{k}")
        for cols in (combos if len(combos) <= 60 else rng.sample(combos, 60)):
            check(la.rank(H[:, cols], q) == r, f"distance below {r + 1}: columns {cols} are dependent")

    for n in (2, 3, 4, 6, 7, 8, 10) if ctx.tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 24, 26):
        for k in range(1, n):
            try:
                galois.ReedSolomon(n, k)
            except Exception:
                continue  # there is no Reed-Solomon code with these parameters
            if ctx.left() > 0:
                ctx.case(f"rs-{n}-{k}", rs, n, k)

    for q in (2, 3, 4, 5):
        for m in range(1, 7):
            n = q**m - 1
            if n > ctx.n(31, 130):
                continue
            for k in range(1, n):
                try:
                    ref = galois.BCH(n, k, field=galois.GF(q))
                except Exception:
                    continue
                def bch():
                    code = codes.BCHCode(n, k, q) if q != 2 else codes.BCHCode(n, k)
                    classical(code, q, n, k, None)
                    check(la.same_span(A(code.generator), A(ref.G), q), "not the BCH code")
                    true = dist_of_generator(A(code.generator), q)
                    check(true is None or true >= ref.d, f"distance {true} below the designed distance {ref.d}")
                ctx.case(f"bch-{q}-{n}-{k}", bch)
    for n, q in [(2, None), (4, None), (6, 2), (10, None), (3, 3), (7, 3), (25, 3), (12, 4)]:
        ctx.case(f"bch-bad-{n}-{q}", must_raise, ValueError, codes.BCHCode, n, 1, q)


def sector_distances(code):
    """True X and Z distances (weights of the smallest nontrivial X- and Z-type operators), by enumeration."""
    q, n = code.field.order, len(code)
    hx, hz = A(code.matrix_x), A(code.matrix_z)
    S = spec.stab_space(A(code.matrix), q)
    out = []
    for sec, own in ((0, hx), (1, hz)):
        # operators of this type that commute with all stabilizers, modulo the gauge group
        other = S[:, (1 - sec) * n:(2 - sec) * n]
        other = other[other.any(axis=1)] if len(other) else other
        N = la.nullspace(other, q) if len(other) else np.eye(n, dtype=int)
        if q ** len(N) > WORDS:
            out.append(None)
            continue
        K = la.nullspace(own, q) if len(own) else np.eye(n, dtype=int)
        W = la.words(la.rref(N, q)[0], q)
        non = la.matmul(W, K.T, q).any(axis=1) if len(K) else np.zeros(len(W), dtype=bool)
        out.append(int(np.count_nonzero(W[non], axis=1).min()) if non.any() else float("nan"))
    return out


@contract([QU + f"{c}.__init__" for c in ("SteaneCode", "IcebergCode", "C4Code", "C6Code", "SurfaceCode", "ToricCode", "GeneralizedSurfaceCode",
                                          "BaconShorCode", "SHYPSCode", "HGPCode", "SHPCode")])
def css(make, q, n, k, dx, dz, subsystem=False):
    code = make()
    check(code.field.order == q, f"field of order {code.field.order}")
    check(len(code) == n, f"length {len(code)} != {n}")
    check(bool(code.is_subsystem_code) == subsystem, "type of the code")
    H = A(code.matrix)
    r, s = la.rank(H, q), len(spec.stab_space(H, q))
    check(n - (r + s) // 2 == k, f"the checks define a code of dimension {n - (r + s) // 2} != {k}")
    check(code.dimension == k, f"dimension {code.dimension} != {k}")
    spec.commuting(code)
    spec.logical_ops(code)
    tx, tz = sector_distances(code)
    for p, d, t in ((Pauli.X, dx, tx), (Pauli.Z, dz, tz)):
        if t is not None and d is not None:
            check(same(t, d), f"the true {p} distance is {t}, not {d}")
        d = t if d is None else d
        if d is not None and (n <= 60 or known_distance(code)):
            got = make().get_distance(p)
            check(same(got, d), f"get_distance({p}) = {got} of a fresh code, but the distance is {d}")
    if (dx or tx) is not None and (dz or tz) is not None:
        d = min(dx or tx, dz or tz)
        got = make().get_distance()
        check(same(got, d), f"get_distance() = {got} of a fresh code, but the distance is {d}")
        check(tuple(make().get_code_params()) == (n, k, d) or np.isnan(d), f"code parameters {make().get_code_params()}")
        code = make()
        if q == 2 and n <= 16:
            for p, t in ((Pauli.X, dx or tx), (Pauli.Z, dz or tz), (None, d)):
                check(same(make().get_distance_exact(p), t), f"get_distance_exact({p})")
    # the order in which distances are requested does not matter
    if tx is not None and tz is not None:
        for order in itertools.permutations([Pauli.X, Pauli.Z, None]):
            fresh = make()
            for p in order:
                want = {Pauli.X: tx, Pauli.Z: tz, None: min(tx, tz)}[p]
                check(same(fresh.get_distance(p), want), f"get_distance({p}) when asked in the order {order}")
        if n <= (8 if q == 2 else 4):  # what a family promises about its distances is passed on to stacks
            for order in ([Pauli.X, Pauli.Z], [Pauli.Z, Pauli.X]):
                stacked = codes.CSSCode.stack(make())
                for p in order:
                    check(same(stacked.get_distance(p), {Pauli.X: tx, Pauli.Z: tz}[p]), f"get_distance({p}) of a stack, in the order {order}")


def known_distance(code):
    return isinstance(code, (codes.SurfaceCode, codes.ToricCode, codes.GeneralizedSurfaceCode, codes.SHYPSCode))


@contract([QU + "FiveQubitCode.__init__"])
def five():
    code = codes.FiveQubitCode()
    H = A(code.matrix)
    check(tuple(code.get_code_params()) == (5, 1, 3), "parameters")
    check(len(code) == 5 and la.rank(H, 2) == 4 and not la.symp(H, H, 2).any(), "[[5, 1]]")
    check(spec.quantum_distance(H, 2) == 3 == codes.FiveQubitCode().get_distance_exact(), "distance")


def named(ctx):
    ctx.case("five", five)
    ctx.case("steane", css, codes.SteaneCode, 2, 7, 1, 3, 3)
    ctx.case("c4", css, codes.C4Code, 2, 4, 2, 2, 2)
    ctx.case("c6", css, codes.C6Code, 2, 6, 2, 2, 2)
    for m in range(2, ctx.n(7, 9)):
        ctx.case(f"iceberg-{m}", css, lambda: codes.IcebergCode(m), 2, 2 * m, 2 * m - 2, 2, 2)
        ctx.case(f"iceberg-alt-{m}", css, lambda: codes.IcebergCode(m, alternative_logicals=True), 2, 2 * m, 2 * m - 2, 2, 2)

    def hypercube():
        """alternative logical operators come in two pairs with disjoint supports"""
        L = A(codes.IcebergCode(3, alternative_logicals=True).get_logical_ops())
        x, z = L[:4, :6], L[4:, 6:]
        for half, rows in ((slice(0, 3), (2, 3)), (slice(3, 6), (0, 1))):
            check(not x[rows, half].any() and not z[rows, half].any(), "pairs of logical qubits overlap")
    ctx.case("iceberg-disjoint", hypercube)
    for dx, dz in itertools.product(range(2, ctx.n(4, 6)), repeat=2):
        if (2**dx - 1) * (2**dz - 1) > 250:
            continue
        n = (2**dx - 1) * (2**dz - 1)
        for kw in ({}, {"set_logicals": False}):
            ctx.case(f"shyps-{dx}-{dz}-{kw}", css, lambda: codes.SHYPSCode(dx, dz, **kw), 2, n, dx * dz, 2 ** (dz - 1), 2 ** (dx - 1), True)
    ctx.case("shyps-default", css, lambda: codes.SHYPSCode(3), 2, 49, 9, 4, 4, True)


def surface(ctx):
    hi = ctx.n(5, 8)
    for q in (2, 3, 4, 5):
        for r, c in itertools.product(range(1, hi), repeat=2):
            if q > 2 and r * c > ctx.n(6, 12):
                continue
            if r * c > ctx.n(16, 42):
                continue
            ctx.case(f"surface-{q}-{r}-{c}", css, lambda: codes.SurfaceCode(r, c, q), q, r * c, 1, c, r)
            if r * c <= 20:
                ctx.case(f"surface-hgp-{q}-{r}-{c}", css, lambda: codes.SurfaceCode(r, c, q, rotated=False), q, r * c + (r - 1) * (c - 1), 1, c, r)
        for r in range(1, 4):
            ctx.case(f"surface-{q}-{r}", css, lambda: codes.SurfaceCode(r, field=q), q, r * r, 1, r, r)
            ctx.case(f"surface-hgp-{q}-{r}", css, lambda: codes.SurfaceCode(r, field=q, rotated=False), q, r * r + (r - 1) ** 2, 1, r, r)
    for q in (2, 3, 4):
        for r, c in itertools.product(range(2, 7), repeat=2):
            if r * c > ctx.n(16, 36) or (q > 2 and r * c > 16):
                continue
            if r % 2 == 0 and c % 2 == 0:
                ctx.case(f"toric-{q}-{r}-{c}", css, lambda: codes.ToricCode(r, c, q), q, r * c, 2, min(r, c), min(r, c))
            else:
                ctx.case(f"toric-bad-{q}-{r}-{c}", must_raise, ValueError, codes.ToricCode, r, c, q)
            if r * c <= 12:
                ctx.case(f"toric-hgp-{q}-{r}-{c}", css, lambda: codes.ToricCode(r, c, q, rotated=False), q, 2 * r * c, 2, min(r, c), min(r, c))
    ctx.case("toric-2", css, lambda: codes.ToricCode(2), 2, 4, 2, 2, 2)
    ctx.case("toric-4", css, lambda: codes.ToricCode(4), 2, 16, 2, 4, 4)
    ctx.case("toric-hgp-1-3", css, lambda: codes.ToricCode(1, 3, rotated=False), 2, 6, 2, 1, 1)


def general(ctx):
    for q in (2, 3, 4):
        for size, dim in [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)]:
            for periodic in (False, True):
                if (q > 2 and (size, dim) not in [(2, 2), (3, 2), (2, 3)]) or (ctx.tier == "quick" and (size ** dim > 16 or q > 2 and size ** dim > 9)):
                    continue
                def run():
                    make = lambda: codes.GeneralizedSurfaceCode(size, dim, q, periodic=periodic)
                    code = make()
                    a, b = (size, size) if periodic else (size, size - 1)
                    # degree-1 part of a tensor product of one complex (b <- a) and dim - 1 dual complexes (a <- b)
                    want = a * a ** (dim - 1) + b * (dim - 1) * b * a ** (dim - 2)
                    css(make, q, want, dim if periodic else 1, size ** (dim - 1), size)
                    if dim == 2 and not periodic:
                        ref = codes.SurfaceCode(size, field=q, rotated=False)
                        check((len(ref), ref.dimension) == (len(code), code.dimension), "two-dimensional surface code")
                ctx.case(f"gen-{q}-{size}-{dim}-{periodic}", run, limit=200)
    for dim in (-1, 0, 1):
        ctx.case(f"gen-bad-{dim}", must_raise, ValueError, codes.GeneralizedSurfaceCode, 3, dim)
    for q in (2, 3, 4):
        for r, c in itertools.product(range(2, ctx.n(5, 6)), repeat=2):
            if q > 2 and r * c > 6 or q ** (r * c) > 1 << 20:
                continue
            for kw in ({}, {"set_logicals": False}):
                ctx.case(f"bacon-{q}-{r}-{c}-{kw}", css, lambda: codes.BaconShorCode(r, c, q, **kw), q, r * c, 1, c, r, True)
        ctx.case(f"bacon-{q}-2", css, lambda: codes.BaconShorCode(2, field=q), q, 4, 1, 2, 2, True)


def products(ctx):
    """Parameters of hypergraph and subsystem hypergraph products (arXiv:0903.0566, arXiv:2002.06257)."""
    for i in range(ctx.n(60, 800)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            q = rng.choice([2, 2, 2, 3, 4])
            while True:
                H1, H2 = (gen.matrix(rng, rng.randrange(1, 5), rng.randrange(1, 5), q) for _ in range(2))
                (m1, n1), (m2, n2) = H1.shape, H2.shape
                n = n1 * n2 + m1 * m2
                if m1 and m2 and q ** n <= (1 << 16 if q == 2 else ctx.n(1 << 10, 1 << 13)):
                    break
            d = lambda M: dist_of_generator(la.nullspace(M, q), q) if M.shape[1] - la.rank(M, q) else None
            k1, k2 = n1 - la.rank(H1, q), n2 - la.rank(H2, q)
            t1, t2 = m1 - la.rank(H1, q), m2 - la.rank(H2, q)
            kw = {"set_logicals": rng.random() < 0.5}
            make = lambda: codes.HGPCode(gen.gf(H1, q), gen.gf(H2, q), **kw)
            k = k1 * k2 + t1 * t2
            # X-type operators: words of code 2 in rows, words of the transpose of code 1 in columns
            cand_x = ([d(H2)] if k1 * k2 else []) + ([d(H1.T)] if t1 * t2 else [])
            cand_z = ([d(H1)] if k1 * k2 else []) + ([d(H2.T)] if t1 * t2 else [])
            nan = float("nan")
            dx, dz = (min(cand_x), min(cand_z)) if k else (nan, nan)
            css(make, q, n, k, dx, dz)
            make = lambda: codes.SHPCode(gen.gf(H1, q), gen.gf(H2, q), **kw)
            k = k1 * k2
            css(make, q, n1 * n2, k, d(H2) if k else nan, d(H1) if k else nan, True)

        ctx.case(f"product-{i}", run, limit=200)


GROUPS = {"classical": classical_family, "reed_muller": reed_muller, "roots": roots_code, "named": named, "surface": surface,
          "general": general, "products": products}
GROUPS.update({g.__name__: g for g in proofs("families", "chains", "reed_muller", "hamming", "extended", "family_lemmas")})
GROUPS.update({g.__name__: g for g in proofs("surfaces", "layout", "codes_of", "product_codes", "product_seeds", "surface_lemmas", "product_lemmas")})
