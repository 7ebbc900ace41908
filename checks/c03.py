"""C03: code parameters and canonical forms agree with linear algebra."""
import numpy as np

from vf import derive, env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import check, must_raise
from qldpc import abstract, codes
from qldpc.objects import Pauli

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600


def named(ctx):
    for label, make in families.named_quantum().items():
        ctx.case(label, lambda make=make: spec.quantum_params(make()))
    for label, make in classical_named().items():
        ctx.case(label, lambda make=make: spec.classical_params(make()))


def classical_named():
    C = codes
    out = {}
    for q in (2, 3, 4):
        for n in (1, 2, 3, 5):
            out[f"RepetitionCode({n},{q})"] = lambda n=n, q=q: C.RepetitionCode(n, q)
            out[f"RingCode({n},{q})"] = lambda n=n, q=q: C.RingCode(n, q)
        for r in (2, 3):
            out[f"HammingCode({r},{q})"] = lambda r=r, q=q: C.HammingCode(r, q)
    for r in (2, 3, 4):
        out[f"ExtendedHammingCode({r})"] = lambda r=r: C.ExtendedHammingCode(r)
        out[f"SimplexCode({r})"] = lambda r=r: C.SimplexCode(r)
    for m in (1, 2, 3, 4):
        for r in range(m + 1):
            out[f"ReedMullerCode({r},{m})"] = lambda r=r, m=m: C.ReedMullerCode(r, m)
    return out


def quantum(ctx):
    for i in range(ctx.n(300, 5000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5, 8]), rng.randrange(1, 7)

        def run():
            kind = i % 4
            if kind == 0:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q), is_subsystem_code=rng.choice([None, None, True]))
            elif kind == 1:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_stabilizer(rng, n, q)])
            elif kind == 2:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_any(rng, n, q)])
            else:
                code = codes.QuditCode(gen.gf(gen.matrix(rng, rng.randrange(1, 6), 2 * n, q, 0.4), q))
            spec.quantum_params(code)
            copy = codes.QuditCode(code) if kind in (0, 3) else codes.CSSCode(code.code_x, code.code_z, is_subsystem_code=code.is_subsystem_code)
            spec.quantum_params(copy)
            check(np.array_equal(np.array(copy.matrix), np.array(code.matrix)) and copy.is_subsystem_code == code.is_subsystem_code, "copy")
            spec.equiv(code, code.canonicalized, type(code))
            spec.equiv(code, copy, type(code))
            ask = {"gauge operators": lambda c: c.get_gauge_ops(), "logical operators": lambda c: c.get_logical_ops(), "stabilizers": lambda c: c.get_stabilizer_ops(),
                   "dimension": lambda c: c.dimension, "gauge dimension": lambda c: c.gauge_dimension}
            try:
                for name in rng.sample(list(ask), rng.randrange(len(ask) + 1)):
                    ask[name](code)
                want = {name: np.array(ask[name](code)) for name in ask} if kind in (0, 3) else {}
            except (ArithmeticError, IndexError, ValueError, np.linalg.LinAlgError):  # subsystem codes that are not CSS codes: a known finding of C02
                check(kind == 3 and code.is_subsystem_code, "operators cannot be computed")
                return
            if kind in (1, 2):
                return
            again = codes.QuditCode(code)
            for name in rng.sample(list(ask), len(ask)):
                check(np.array_equal(np.array(ask[name](again)), want[name]), f"a copy made by the constructor has other {name}")
        ctx.case(f"quantum-{i}-q{q}", run)


def classical(ctx):
    for i in range(ctx.n(300, 5000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 7, 8, 9])

        def run():
            n = rng.randrange(1, 8)
            M = gen.redundant(rng, gen.matrix(rng, rng.randrange(1, 6), n, q), q)
            code = codes.ClassicalCode(gen.gf(M, q)) if i % 2 else codes.ClassicalCode(M, q)
            spec.classical_params(code)
            copy = codes.ClassicalCode(code)
            spec.classical_params(copy)
            check(copy == code and copy.field is code.field, "copy of a classical code differs")
            M2 = gen.redundant(rng, la.matmul(gen.invertible(rng, len(M), q), M, q), q)
            code2 = codes.ClassicalCode(gen.gf(M2, q))
            check(codes.ClassicalCode.equiv(code, code2), "row operations change the equivalence class")
            M3 = gen.redundant(rng, gen.matrix(rng, rng.randrange(1, 6), n, q), q)
            spec.equiv(code, codes.ClassicalCode(gen.gf(M3, q)), codes.ClassicalCode)
            check((code == codes.ClassicalCode(gen.gf(M3, q))) == np.array_equal(M, M3), "equality of codes")
            # field mismatch is rejected
            must_raise(ValueError, codes.ClassicalCode, code, 11)
        ctx.case(f"classical-{i}-q{q}", run)


def equivalences(ctx):
    for i in range(ctx.n(120, 2000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4]), rng.randrange(1, 5)

        def run():
            if i % 2:
                A = gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q)
                B = la.matmul(gen.invertible(rng, len(A), q), A, q) if i % 4 == 1 else gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q)
                a, b = codes.QuditCode(gen.gf(A, q)), codes.QuditCode(gen.gf(B, q))
                spec.equiv(a, b, codes.QuditCode)
            else:
                hx, hz = gen.css_stabilizer(rng, n, q)
                a = codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))
                gx = gen.redundant(rng, hx, q) if len(hx) else hx
                b = codes.CSSCode(gen.gf(gx, q), gen.gf(hz, q))
                spec.equiv(a, b, codes.CSSCode)
                hx2, hz2 = gen.css_stabilizer(rng, n, q)
                spec.equiv(a, codes.CSSCode(gen.gf(hx2, q), gen.gf(hz2, q)), codes.CSSCode)
                if len(a.matrix):
                    spec.equiv(a, codes.QuditCode(a.matrix), codes.QuditCode)
                    spec.equiv(codes.QuditCode(a.matrix), b, codes.CSSCode)
                check((a == codes.CSSCode(gen.gf(hx2, q), gen.gf(hz2, q))) == (np.array_equal(hx, hx2) and np.array_equal(hz, hz2)), "CSS equality")
        ctx.case(f"equiv-{i}-q{q}", run)


def setters(ctx):
    """invalid logical operators and generators are rejected; valid ones are accepted and used"""
    for i in range(ctx.n(160, 2500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 5]), rng.randrange(2, 6)

        def run():
            css = i % 2
            if css:
                hx, hz = gen.css_stabilizer(rng, n, q)
                code = codes.CSSCode(gen.gf(hx, q), gen.gf(hz, q))
            else:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n), q), q))
            k = code.dimension
            L = np.array(code.get_logical_ops(), dtype=int)
            H = np.array(code.matrix, dtype=int)
            # valid: any symplectic recombination, plus stabilizers
            S = gen.random_symplectic(rng, k, q) if k else np.zeros((0, 0), dtype=int)
            J = la.matmul(S, L, q) if k else L
            if len(H):
                c = gen.matrix(rng, 2 * k, len(H), q)
                J = la.add(J, la.matmul(c, H, q), q)
            P = la.symp(J[:k], J[k:], q)
            if k:
                code.set_logical_ops(J)
                check(np.array_equal(np.array(code.get_logical_ops()), J), "installed logical operators are not returned")
                check(code.dimension == k, "dimension after installing logical operators")
            # invalid ones
            for _ in range(3):
                bad = J.copy()
                if bad.size:
                    r, c = rng.randrange(2 * k), rng.randrange(2 * n)
                    bad[r, c] = (bad[r, c] + rng.randrange(1, q)) % q
                    ok = (not la.symp(H, bad, q).any()) and np.array_equal(la.symp(bad[:k], bad[k:], q), np.eye(k, dtype=int))
                    if not ok:
                        before = np.array(code.get_logical_ops())
                        must_raise(ValueError, code.set_logical_ops, bad)
                        check(np.array_equal(before, np.array(code.get_logical_ops())), "a rejected update changed the code")
            if k >= 2:
                # same-type operators that do not commute with each other
                bad = J.copy()
                a, b = rng.sample(range(k), 2)
                s = rng.choice([0, k])
                bad[s + a] = la.add(bad[s + a], J[(k - s) + b], q)
                must_raise(ValueError, code.set_logical_ops, bad)
                short = np.vstack([J[:k - 1], J[k:2 * k - 1]])
                must_raise(ValueError, code.set_logical_ops, short)
                if css and la.rank(L[:k, :n], q) == k:
                    X, Z = L[:k, :n], L[k:, n:]
                    must_raise(ValueError, code.set_logical_ops_xz, X[:-1], Z[:-1])
                    must_raise(ValueError, code.set_logical_ops_xz, X, Z[::-1] if k % 2 == 0 else np.roll(Z, 1, axis=0))
                    code.set_logical_ops_xz(X, Z)
            # classical generators
            M = gen.matrix(rng, rng.randrange(1, n), n, q)
            cc = codes.ClassicalCode(gen.gf(M, q))
            G = la.nullspace(M, q)
            if len(G):
                G2 = la.matmul(gen.invertible(rng, len(G), q), G, q)
                cc.set_generator(G2)
                check(np.array_equal(np.array(cc.generator), G2), "installed generator is not returned")
                bad = G2.copy()
                r, c = rng.randrange(len(G)), rng.randrange(n)
                bad[r, c] = (bad[r, c] + 1) % q
                if la.matmul(M, bad.T, q).any() or la.rank(bad, q) != len(G):
                    must_raise(ValueError, cc.set_generator, bad)
                if len(G) > 1:
                    must_raise(ValueError, cc.set_generator, G2[:-1])
        ctx.case(f"setters-{i}-q{q}", run)


def histories(ctx):
    """codes obtained by sequences of operations, with queries in between"""
    for i in range(ctx.n(200, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4])

        def run():
            code, _ = derive.derived(rng, q)
            if len(code.matrix):
                spec.quantum_params(code)
            spec.equiv(code, code.canonicalized, type(code))
        ctx.case(f"history-{i}-q{q}", run)


def fields(ctx):
    """the same entries over different fields"""
    for i in range(ctx.n(40, 400)):
        rng = ctx.rng(i)
        p, q = rng.sample([2, 3, 4, 5, 7, 8, 9], 2)
        n = rng.randrange(1, 5)

        def run():
            h = gen.matrix(rng, rng.randrange(1, 4), n, 2)
            pairs = [(codes.ClassicalCode(gen.gf(h, p)), codes.ClassicalCode(gen.gf(h, q)), codes.ClassicalCode)]
            z = np.zeros_like(h)
            must_raise(ValueError, codes.CSSCode, pairs[0][0], pairs[0][1])
            must_raise(ValueError, codes.CSSCode, gen.gf(h, p), gen.gf(z, q))
            must_raise(ValueError, codes.CSSCode, gen.gf(h, p), gen.gf(np.hstack([z, z]), p))
            a, b = (codes.CSSCode(gen.gf(h, f), gen.gf(z, f)) for f in (p, q))
            pairs.append((a, b, codes.CSSCode))
            pairs.append((codes.QuditCode(a.matrix), codes.QuditCode(b.matrix), codes.QuditCode))
            pairs.append((a, codes.QuditCode(b.matrix), codes.CSSCode))
            for a, b, cls in pairs:
                spec.equiv(a, b, cls)
                check(a != b, "codes over different fields are equal")
        ctx.case(f"fields-{i}-{p}-{q}", run)


GROUPS = [named, quantum, classical, equivalences, setters, histories, fields] + proofs('parameters', 'dimensions', 'canonical', 'relations') + proofs('blocks', 'stabilizers')
