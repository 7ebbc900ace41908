"""C07: stacking and concatenation."""
import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise
from qldpc import codes
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
C = "qldpc.codes.common."
A = spec.A


def direct_sum(Ms):
    """(x1|z1), (x2|z2), ... -> block diagonal in X and in Z."""
    ns = [M.shape[1] // 2 for M in Ms]
    rows = sum(len(M) for M in Ms)
    N = sum(ns)
    out = np.zeros((rows, 2 * N), dtype=int)
    r = c = 0
    for M, n in zip(Ms, ns):
        out[r:r + len(M), c:c + n] = M[:, :n]
        out[r:r + len(M), N + c:N + c + n] = M[:, n:]
        r, c = r + len(M), c + n
    return out


@contract([C + "QuditCode.stack", C + "CSSCode.stack"])
def stacked(cls, cs, inherit):
    q = spec.q_of(cs[0])
    logical = [A(c.get_logical_ops()) for c in cs] if inherit else None
    s = cls.stack(*cs, inherit_logicals=inherit)
    check(s.field is cs[0].field and len(s) == sum(map(len, cs)), "length of a stack")
    want = direct_sum([A(c.matrix) for c in cs])
    H = A(s.matrix)
    check(H.shape == want.shape and la.same_span(H, want, q), "checks of a stack")
    check(sorted(map(tuple, H.tolist())) == sorted(map(tuple, want.tolist())), "checks of a stack")
    check(s.dimension == sum(c.dimension for c in cs), f"dimension {s.dimension}")
    check(s.is_subsystem_code == any(c.is_subsystem_code for c in cs), "type of a stack")
    check(s.gauge_dimension == sum(c.gauge_dimension for c in cs), "gauge dimension of a stack")
    if inherit or not s.is_subsystem_code or cls is codes.CSSCode:
        spec.logical_ops(s)  # those of non-CSS subsystem codes that inherit nothing: see the known findings of C02
    if inherit:
        # inherited logicals: exactly the logical operators of the blocks
        got = {tuple(r) for r in A(s.get_logical_ops())[:s.dimension].tolist()}
        wantx = {tuple(r) for r in direct_sum([L[:len(L) // 2] for L in logical]).tolist()}
        check(got == wantx, "inherited X-type logicals")
        got = {tuple(r) for r in A(s.get_logical_ops())[s.dimension:].tolist()}
        wantz = {tuple(r) for r in direct_sum([L[len(L) // 2:] for L in logical]).tolist()}
        check(got == wantz, "inherited Z-type logicals")
    return s


@contract([C + "QuditCode.concatenate", C + "CSSCode.concatenate"])
def concatenated(cls, inner, outer, mapping, inherit):
    q = spec.q_of(inner)
    k = inner.dimension
    L = A(inner.get_logical_ops())
    Hi, Ho = A(inner.matrix), A(outer.matrix)
    Lo = A(outer.get_logical_ops())
    n_mid = k * len(outer) if mapping is None else len(mapping)
    bi, bo = n_mid // k, n_mid // len(outer)
    code = cls.concatenate(inner, outer, mapping, inherit_logicals=inherit)
    check(len(code) == bi * len(inner), f"length {len(code)}")
    Hin = direct_sum([Hi] * bi)
    # inner logicals of all blocks, X of all blocks first; logical `a` of block `b` has index b * k + a
    Lx, Lz = direct_sum([L[:k]] * bi), direct_sum([L[k:]] * bi)
    if mapping is None:
        # each logical qudit of an inner block is used in a different outer block
        mapping = [None] * n_mid
        for phys in range(n_mid):
            block_out, j = divmod(phys, len(outer))
            mapping[phys] = j * k + block_out
    mapping = [mapping[j] for j in range(n_mid)]
    enc = np.vstack([Lx[mapping], Lz[mapping]])
    want = np.vstack([Hin, la.matmul(direct_sum([Ho] * bo), enc, q).reshape(-1, 2 * len(code))])
    H = A(code.matrix)
    check(la.same_span(H, want, q), "checks of a concatenated code")
    check(len(H) == len(want), "number of checks of a concatenated code")
    if not (inner.is_subsystem_code or outer.is_subsystem_code):
        check(not code.is_subsystem_code, "concatenation of stabilizer codes is a stabilizer code")
    spec.commuting(code)
    check(code.dimension == bo * outer.dimension, f"dimension {code.dimension} != {bo * outer.dimension}")
    if inherit or not code.is_subsystem_code or cls is codes.CSSCode:
        spec.logical_ops(code)
    if inherit:
        wantL = la.matmul(direct_sum([Lo[:outer.dimension]] * bo), enc, q), la.matmul(direct_sum([Lo[outer.dimension:]] * bo), enc, q)
        got = A(code.get_logical_ops())
        for i, w in enumerate(wantL):
            d = code.dimension
            check({tuple(r) for r in got[i * d:(i + 1) * d].tolist()} == {tuple(r) for r in w.tolist()}, "inherited logicals")
    check(np.array_equal(A(inner.get_logical_ops()), L) and np.array_equal(A(outer.get_logical_ops()), Lo), "an input code was changed")
    check(np.array_equal(A(inner.matrix), Hi) and np.array_equal(A(outer.matrix), Ho), "an input code was changed")


def some_code(rng, q, css, sub, nmax=4):
    while True:
        n = rng.randrange(1, nmax + 1)
        if css:
            f = gen.css_subsystem if sub else gen.css_stabilizer
            code = codes.CSSCode(*[gen.gf(h, q) for h in f(rng, n, q)])
        else:
            S, s = gen.random_symplectic(rng, n, q), rng.randrange(1, n + 1)
            code = codes.QuditCode(gen.gf(gen.redundant(rng, S[n:n + s], q, None), q))
            if rng.random() < 0.5:  # logical operators with any support
                code.set_logical_ops(np.vstack([S[s:n], S[n + s:]]))
        return code


def with_logicals(rng, q, css, sub, nmax=4):
    while True:
        c = some_code(rng, q, css, sub, nmax)
        if c.dimension:
            return c


def stacking(ctx):
    for i in range(ctx.n(200, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5])
        css = bool(i % 2)

        def run():
            cs = [some_code(rng, q, css, rng.random() < 0.5) for _ in range(rng.randrange(1, 4))]
            inherit = rng.random() < 0.6
            s = stacked(codes.CSSCode if css else codes.QuditCode, cs, inherit)
            if rng.random() < 0.4:
                spec.quantum_params(s)
                spec.stabilizer_ops(s)
            if css and rng.random() < 0.5:
                stacked(codes.QuditCode, cs, inherit)
            if css and q == 2 and len(s) <= 7 and s.dimension:
                d = [c.get_distance() for c in cs if c.dimension]
                if rng.random() < 0.5:
                    check(s.get_distance() == min(d), "distance of a stack")
                for p in (Pauli.X, Pauli.Z):
                    check(s.get_distance(p) == min(c.get_distance(p) for c in cs if c.dimension), "distance of one type of a stack")
                check(s.get_distance() == min(d), "distance of a stack")
            bad = codes.CSSCode([[1, 1]], [[1, 6]], 7)
            must_raise((ValueError, TypeError), codes.QuditCode.stack, cs[0], bad)
            if not css:
                must_raise(TypeError, codes.CSSCode.stack, cs[0])
        ctx.case(f"stack-{i}-q{q}", run)


def concatenation(ctx):
    for i in range(ctx.n(200, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5])
        css = bool(i % 2)

        def run():
            inner, outer = with_logicals(rng, q, css, rng.random() < 0.4, 4), some_code(rng, q, css, rng.random() < 0.4, 3)
            k, n = inner.dimension, len(outer)
            mode = rng.randrange(4)
            mapping = None
            if mode:
                base = int(np.lcm(k, n)) * rng.randrange(1, 3)
                mapping = rng.sample(range(base), base)
                if mode == 2:
                    items = list(enumerate(mapping))
                    rng.shuffle(items)
                    mapping = dict(items)
                if mode == 3:
                    mapping = np.array(mapping)
            if (len(mapping) if mapping is not None else k * n) // k * len(inner) > 40:
                return
            concatenated(codes.CSSCode if css else codes.QuditCode, inner, outer, mapping, rng.random() < 0.6)
            bad = k * n + 1
            if bad % k or bad % n:
                must_raise(ValueError, codes.QuditCode.concatenate, inner, outer, list(range(bad)))
        ctx.case(f"concat-{i}-q{q}", run)


def named(ctx):
    C4, St, Ic, Five = codes.C4Code, codes.SteaneCode, lambda: codes.IcebergCode(3), codes.FiveQubitCode
    for label, inner, outer, mapping in [
        ("C4-C6", C4, codes.C6Code, None), ("C4-C6b", C4, codes.C6Code, [0, 1, 2, 3, 4, 5]), ("C4-C4", C4, C4, [0, 2, 1, 3]),
        ("Iceberg-C4", Ic, C4, None), ("C4-Steane", C4, St, None), ("Steane-C4", St, C4, None), ("surface-C4", lambda: codes.SurfaceCode(2), C4, None),
        ("BS-C4", lambda: codes.BaconShorCode(2), C4, None), ("C4-BS", C4, lambda: codes.BaconShorCode(2), None),
    ]:
        for inherit in (True, False):
            ctx.case(f"{label}-{inherit}", lambda inner=inner, outer=outer, mapping=mapping, inherit=inherit:
                     concatenated(codes.CSSCode, inner(), outer(), mapping, inherit))
            ctx.case(f"{label}-{inherit}-qudit", lambda inner=inner, outer=outer, mapping=mapping, inherit=inherit:
                     concatenated(codes.QuditCode, inner(), outer(), mapping, inherit))
    ctx.case("five-five", lambda: concatenated(codes.QuditCode, Five(), Five(), None, True))
    ctx.case("five-C4", lambda: concatenated(codes.QuditCode, C4(), Five(), None, True))


GROUPS = [stacking, concatenation, named] + proofs('blocks', 'stacking')
