"""C01: constructed stabilizer codes have commuting parity checks."""
import numpy as np
import sympy

from vf import derive, env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, must_raise
from qldpc import abstract, codes, objects

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600


def named(ctx):
    for label, make in families.named_quantum().items():
        def run(make=make):
            spec.commuting(make())
        ctx.case(label, run)


def geometric(ctx):
    """every size up to a bound, rotated and not"""
    N = ctx.n(7, 11)
    for r in range(2, N):
        for c in range(2, N):
            for q in (2, 3, 4):
                if q > 2 and (r > 5 or c > 5):
                    continue
                ctx.case(f"SurfaceCode({r},{c},field={q})", lambda r=r, c=c, q=q: spec.commuting(codes.SurfaceCode(r, c, q)))
                if r * c <= 20:
                    ctx.case(f"SurfaceCode({r},{c},field={q},unrotated)", lambda r=r, c=c, q=q: spec.commuting(codes.SurfaceCode(r, c, q, rotated=False)))
                    ctx.case(f"ToricCode({r},{c},field={q},unrotated)", lambda r=r, c=c, q=q: spec.commuting(codes.ToricCode(r, c, q, rotated=False)))
                if r % 2 == c % 2 == 0:
                    ctx.case(f"ToricCode({r},{c},field={q})", lambda r=r, c=c, q=q: spec.commuting(codes.ToricCode(r, c, q)))
                elif q == 2:
                    ctx.case(f"ToricCode({r},{c}) rejected", lambda r=r, c=c: must_raise(ValueError, codes.ToricCode, r, c))
    for size, dim, per in [(2, 2, 0), (3, 2, 0), (2, 3, 0), (2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 3, 0), (2, 4, 0)]:
        for q in (2, 3):
            ctx.case(f"GeneralizedSurfaceCode({size},{dim},periodic={per},field={q})",
                     lambda size=size, dim=dim, per=per, q=q: spec.commuting(codes.GeneralizedSurfaceCode(size, dim, q, periodic=bool(per))))


def flags(ctx):
    """random matrices with and without commuting rows: the flag is exact"""
    for i in range(ctx.n(160, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5, 7, 9]), rng.randrange(1, 6)
        kind = rng.choice(["any", "stab", "css", "cssany"])

        def run():
            if kind == "any":
                code = codes.QuditCode(gen.gf(gen.matrix(rng, rng.randrange(1, 5), 2 * n, q, 0.3), q))
            elif kind == "stab":
                M = gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q)
                code = codes.QuditCode(gen.gf(M, q))
                check(not code.is_subsystem_code, "commuting checks flagged as a subsystem code")
            elif kind == "css":
                hx, hz = gen.css_stabilizer(rng, n, q)
                code = codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))
                check(not code.is_subsystem_code, "commuting checks flagged as a subsystem code")
            else:
                hx, hz = gen.css_any(rng, n, q)
                code = codes.CSSCode(hx, hz, q) if rng.random() < 0.5 else codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))
            spec.flag_exact(code)
            spec.commuting(code)
        ctx.case(f"{kind}-{i}-q{q}", run)


def hgp(ctx):
    for i in range(ctx.n(80, 1200)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 3, 4, 5])
        a, b = gen.classical(rng, q, 4), gen.classical(rng, q, 4)

        def run():
            code = codes.HGPCode(a, b) if i % 3 else codes.HGPCode(np.array(a.matrix, dtype=int), np.array(b.matrix, dtype=int), q)
            check(not code.is_subsystem_code, "an HGP code is a stabilizer code")
            spec.commuting(code)
            shape_a, shape_b = a.matrix.shape, b.matrix.shape
            check(len(code) == shape_a[1] * shape_b[1] + shape_a[0] * shape_b[0], "length of a hypergraph product")
            check(np.array_equal(code.sector_size, np.outer(shape_a[::-1], shape_b[::-1])), "sectors of the hypergraph product")
            check(codes.HGPCode(a) == codes.HGPCode(a, a) and codes.SHPCode(a) == codes.SHPCode(a, a), "product of a code with itself")
            spec.commuting(codes.HGPCode(a) if i % 2 else codes.HGPCode(a, set_logicals=False))
        ctx.case(f"HGP-{i}-q{q}", run)


def lifted(ctx):
    i = 0
    for gname, group in families.abelian_groups().items():
        for q in (2, 3):
            for rep in range(ctx.n(3, 30)):
                i += 1
                rng = ctx.rng((gname, q, rep))
                ring = abstract.GroupRing(group, q)
                if q != 2 and group.order % 2 == 0 and rep > 1:
                    pass

                def run():
                    def proto(r, c):
                        M = np.empty((r, c), dtype=object)
                        for idx in np.ndindex(r, c):
                            terms = [(rng.randrange(1, q), m) for m in rng.sample(list(group.generate()), min(group.order, rng.randrange(0, 3)))]
                            M[idx] = abstract.RingMember(ring, *terms)
                        return abstract.RingArray(M)
                    A, B = proto(rng.randrange(1, 3), rng.randrange(1, 4)), proto(rng.randrange(1, 3), rng.randrange(1, 3))
                    code = codes.LPCode(A, B)
                    check(not code.is_subsystem_code, "LPCode is a stabilizer code")
                    g = group.lift_dim
                    check(np.array_equal(code.sector_size, [[g * A.shape[1] * B.shape[1], g * A.shape[1] * B.shape[0]],
                                                            [g * A.shape[0] * B.shape[1], g * A.shape[0] * B.shape[0]]]), "sectors of the lifted product")
                    if rep == 0:
                        check(codes.LPCode(A) == codes.LPCode(A, A) and codes.SLPCode(A) == codes.SLPCode(A, A), "product of a matrix with itself")
                    spec.commuting(code)
                    check(code.field.order == q, "field of the lifted product")
                    spec.commuting(codes.LPCode(A))
                    sl = codes.SLPCode(A, B)
                    check(sl.is_subsystem_code, "SLPCode is a subsystem code")
                ctx.case(f"LP-{gname}-q{q}-{rep}", run)
    # known finding: non-Abelian groups
    for gname, group in families.nonabelian_groups().items():
        def run(group=group):
            g, h = group.generators[0], group.generators[-1]
            ring = abstract.GroupRing(group, 3 if gname == "Q8" else 2)
            A = abstract.RingArray([[abstract.RingMember(ring, g), abstract.RingMember(ring, (1, h), (1, g))]])
            spec.commuting(codes.LPCode(A))
        ctx.case(f"LP-nonabelian-{gname}", run)


def bicycles(ctx):
    for i, (orders, a, b) in enumerate(families.polys()):
        for q in (2, 3):
            ctx.case(f"BBCode-{i}-q{q}", lambda o=orders, a=a, b=b, q=q: spec.commuting(codes.BBCode(o, a, b, q)))
    x, y, z = sympy.symbols("x y z")
    for i in range(ctx.n(20, 300)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)

        def run():
            nv = rng.randrange(1, 4)
            syms = [x, y, z][:nv]
            orders = [rng.randrange(1, 4) for _ in range(nv)]
            def poly():
                p = sum(sympy.prod([s ** rng.randrange(-2, 4) for s in syms]) for _ in range(rng.randrange(2, 4)))
                return p + syms[0] if not p.free_symbols else p
            a, b = poly(), poly()
            q = rng.choice([2, 3])
            if any(abs(c) >= q for p in (a, b) for c in sympy.Poly(p).coeffs()):
                raise Skip("coefficient outside of the field")
            spec.commuting(codes.QCCode(orders, a, b, q))
        ctx.case(f"QC-{i}", run)
    for i in range(ctx.n(30, 400)):
        rng = ctx.rng(("tb", i))
        q = rng.choice([2, 3, 4])

        def run():
            n = rng.randrange(1, 4)
            P = gen.matrix(rng, n, n, q)
            # commuting pair: polynomials of one matrix
            A = la.add(la.mul(rng.randrange(q), np.eye(n, dtype=int), q), la.mul(rng.randrange(q), P, q), q)
            B = la.add(la.matmul(P, P, q), la.mul(rng.randrange(q), P, q), q)
            spec.commuting(codes.TBCode(gen.gf(A, q), gen.gf(B, q)))
            R, T = gen.matrix(rng, n, n, q), gen.matrix(rng, n, n, q)
            if not np.array_equal(la.matmul(R, T, q), la.matmul(T, R, q)):
                must_raise(ValueError, codes.TBCode, gen.gf(R, q), gen.gf(T, q))
            else:
                spec.commuting(codes.TBCode(gen.gf(R, q), gen.gf(T, q)))
        ctx.case(f"TB-{i}-q{q}", run)


def tanner(ctx):
    cases = []
    for gname, group in {"C4": abstract.CyclicGroup(4), "C6": abstract.CyclicGroup(6), "D3": abstract.DihedralGroup(3),
                         "D4": abstract.DihedralGroup(4), "C2xC4": abstract.CyclicGroup(2) * abstract.CyclicGroup(4),
                         "Q8": abstract.QuaternionGroup(), "C8": abstract.CyclicGroup(8)}.items():
        for size in (2, 3):
            for bip in (False, True):
                cases.append((gname, group, size, bip))
    for rep in range(ctx.n(1, 10)):
        for gname, group, size, bip in cases:
            for q in (2, 3):
                if ctx.left() < 0:
                    return
                rng = ctx.rng((gname, size, bip, rep, q))

                def run():
                    ca = codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, size), size, q, 0.8), q))
                    cb = codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, size), size, q, 0.8), q))
                    try:
                        code = codes.QTCode.random(group, ca, cb if rep % 2 or q == 3 else None, bipartite=bip, seed=rep + 1)
                    except ValueError as e:
                        raise Skip(f"rejected: {e}")
                    spec.commuting(code)
                ctx.case(f"QT-{gname}-{size}-{bip}-{rep}-q{q}", run)


def derived(ctx):
    """codes derived from stabilizer codes remain stabilizer codes with commuting checks"""
    for i in range(ctx.n(60, 900)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5]), rng.randrange(2, 6)

        def run():
            if i % 2:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n), q), q))
            else:
                hx, hz = gen.css_stabilizer(rng, n, q)
                code = codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))
            qudits = rng.sample(range(n), rng.randrange(0, n + 1))
            for d in (code.canonicalized, code.conjugated(qudits), code.conjugated(slice(0, n, 2)), codes.QuditCode(code),
                      codes.QuditCode.stack(code, code), codes.QuditCode(code.matrix),
                      codes.QuditCode.graph_to_matrix(code.graph)):
                d = codes.QuditCode(d) if not isinstance(d, codes.AbstractCode) else d
                check(not d.is_subsystem_code, "a code derived from a stabilizer code is flagged as a subsystem code")
                spec.commuting(d)
            if isinstance(code, codes.CSSCode):
                spec.commuting(codes.CSSCode.stack(code, code))
        ctx.case(f"derived-{i}-q{q}", run)


def histories(ctx):
    """sequences of operations and queries"""
    for i in range(ctx.n(150, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4])

        def run():
            code, _ = derive.derived(rng, q)
            if not code.is_subsystem_code:
                spec.commuting(code)
            for dual in [code.get_dual_subsystem_code()] if derive.usable(code) else []:
                if not dual.is_subsystem_code:
                    spec.commuting(dual)
        ctx.case(f"history-{i}-q{q}", run)


GROUPS = [named, geometric, flags, hgp, lifted, bicycles, tanner, derived, histories] + proofs('blocks', 'flag', 'products')
