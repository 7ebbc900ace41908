"""C08: conjugation and Clifford deformation."""
import numpy as np
import stim

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise
from qldpc import codes

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
C = "qldpc.codes.common.QuditCode."
A = spec.A


def pair(M, n, i):
    return M[:, [i, n + i]]


@contract(C + "conjugated")
def conjugated(code, qudits, expect):
    q, n = spec.q_of(code), len(code)
    H = A(code.matrix)
    had = getattr(code, "_logical_ops", None)
    had = None if had is None else A(had)
    new = code.conjugated(qudits) if not isinstance(qudits, str) else code.conjugated()
    K = A(new.matrix)
    check(new.field is code.field and K.shape == H.shape, "shape")
    for i in range(n):
        old, got = pair(H, n, i), pair(K, n, i)
        if i not in expect:
            check(np.array_equal(old, got), f"qudit {i} is not in the conjugated subset, but was changed")
        else:
            # a local Fourier transform swaps X and Z types (up to signs that preserve commutation relations)
            ok = any(np.array_equal(got, np.column_stack([s * old[:, 1] % q if la.is_prime(q) else (la.neg(old[:, 1], q) if s < 0 else old[:, 1]),
                                                          -s * old[:, 0] % q if la.is_prime(q) else (la.neg(old[:, 0], q) if s > 0 else old[:, 0])]))
                     for s in (1, -1))
            check(ok, f"qudit {i} was not Fourier transformed")
    check(np.array_equal(la.symp(H, H, q), la.symp(K, K, q)), "symplectic products of checks changed")
    check(new.is_subsystem_code == code.is_subsystem_code, "type changed")
    check(new.rank == code.rank and new.dimension == code.dimension, "rank or dimension changed")
    check(np.array_equal(la.symp_weight(H) if len(H) else [], la.symp_weight(K) if len(K) else []), "weights changed")
    if isinstance(code, codes.CSSCode) or not code.is_subsystem_code:
        if not new.is_subsystem_code:
            spec.logical_ops(new)
    if had is not None:
        L = A(new.get_logical_ops())
        check(np.array_equal(la.symp(L, L, q), la.symp(had, had, q)), "products of logical operators changed")
        check(not la.symp(K, L, q).any(), "logical operators violate checks")
        for i in range(n):
            if i not in expect:
                check(np.array_equal(pair(L, n, i), pair(had, n, i)), "a logical operator changed outside of the subset")
    check(np.array_equal(A(code.matrix), H), "the original code was changed")
    if had is not None:
        check(np.array_equal(A(code._logical_ops), had), "the original logical operators were changed")
    return new


def rand_code(rng, q, n):
    k = rng.randrange(3)
    if k == 0:
        return codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q))
    f = gen.css_stabilizer if k == 1 else gen.css_subsystem
    return codes.CSSCode(*[gen.gf(h, q) for h in f(rng, n, q)], is_subsystem_code=rng.choice([None, None, True]) if k == 1 else None)


def conjugation(ctx):
    for i in range(ctx.n(260, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q, n = rng.choice([2, 2, 3, 4, 5, 7]), rng.randrange(1, 6)

        def run():
            code = rand_code(rng, q, n)
            if rng.random() < 0.6 and (isinstance(code, codes.CSSCode) or not code.is_subsystem_code):
                code.get_logical_ops()
            s = rng.sample(range(n), rng.randrange(0, n + 1))
            new = conjugated(code, s, set(s))
            new2 = conjugated(code, slice(0, n, 2), set(range(0, n, 2)))
            conjugated(code, "default", set())
            if q == 2:
                back = new.conjugated(s)
                check(np.array_equal(A(back.matrix), A(code.matrix)), "conjugating twice over GF(2) is not the identity")
            else:
                back = new.conjugated(s)
                check(la.same_span(A(back.matrix)[:, :], A(back.matrix), q) and back.dimension == code.dimension, "twice")
            if q == 2 and n <= 4 and code.dimension and not code.is_subsystem_code:
                check(spec.quantum_distance(A(new.matrix), q) == spec.quantum_distance(A(code.matrix), q) == new.get_distance(), "distance changed")
        ctx.case(f"conj-{i}-q{q}-n{n}", run)


def defaults(ctx):
    """codes with a default subset of qudits to conjugate"""
    for label, make in families.named_quantum().items():
        def run(make=make):
            code = make()
            if len(code) > 30:
                raise Skip("large")
            sub = getattr(code, "_default_conjugate", ())
            idx = set(np.arange(len(code))[sub].tolist()) if not isinstance(sub, tuple) or sub else set()
            conjugated(code, "default", idx)
            for none in ([], (), slice(0, 0)):
                conjugated(code, none, set())
        ctx.case(label, run)


GATES1 = ["H", "S", "S_DAG", "X", "Y", "Z", "SQRT_X", "SQRT_Y", "C_XYZ", "C_ZYX", "H_XY", "H_YZ"]
GATES2 = ["CX", "CZ", "CY", "SWAP", "ISWAP", "XCX", "SQRT_ZZ"]


def random_circuit(rng, qubits, depth):
    c = stim.Circuit()
    for _ in range(depth):
        if len(qubits) > 1 and rng.random() < 0.5:
            c.append(rng.choice(GATES2), rng.sample(qubits, 2))
        else:
            c.append(rng.choice(GATES1), [rng.choice(qubits)])
    return c


def image(circuit, n, row):
    """image of a Pauli string under a circuit, up to sign, by conjugating it gate by gate"""
    p = stim.PauliString(n)
    for i in range(n):
        p[i] = {(0, 0): 0, (1, 0): 1, (1, 1): 2, (0, 1): 3}[(int(row[i]), int(row[n + i]))]
    p = p.after(circuit)
    x, z = p.to_numpy()
    x, z = np.pad(x, (0, max(0, n - len(x))))[:n], np.pad(z, (0, max(0, n - len(z))))[:n]
    return np.concatenate([x, z]).astype(int)


@contract(C + "deformed")
def deformed(code, circuit, preserve):
    n = len(code)
    H = A(code.matrix)
    logical_ops = A(code.get_logical_ops())
    want = np.array([image(circuit, n, r) for r in H]).reshape(-1, 2 * n)
    wantL = np.array([image(circuit, n, r) for r in logical_ops]).reshape(-1, 2 * n)
    arg = circuit if len(str(circuit)) % 2 else str(circuit)
    valid = not la.symp(want, logical_ops, 2).any()
    if preserve:
        if not valid:
            must_raise(ValueError, code.deformed, arg, preserve_logicals=True)
            return
        new = code.deformed(arg, preserve_logicals=True)
        check(np.array_equal(A(new.get_logical_ops()), logical_ops), "preserved logical operators")
    else:
        new = code.deformed(arg)
        check(np.array_equal(A(new.get_logical_ops()), wantL), "logical operators are not mapped to their images")
    check(np.array_equal(A(new.matrix), want), "checks are not mapped to their images")
    check(new.dimension == code.dimension and new.is_subsystem_code == code.is_subsystem_code, "dimension or type")
    check(np.array_equal(la.symp(want, want, 2), la.symp(H, H, 2)), "commutation relations")
    spec.logical_ops(new)
    touched = {t.value for inst in circuit for t in inst.targets_copy()}
    for i in set(range(n)) - touched:
        check(np.array_equal(pair(A(new.matrix), n, i), pair(H, n, i)), f"untouched qubit {i} changed")
    check(np.array_equal(A(code.matrix), H) and np.array_equal(A(code.get_logical_ops()), logical_ops), "the original code was changed")


def deformation(ctx):
    for i in range(ctx.n(160, 2500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        n = rng.randrange(1, 7)

        def run():
            code = rand_code(rng, 2, n)
            if not (isinstance(code, codes.CSSCode) or not code.is_subsystem_code):
                return
            qubits = rng.sample(range(n), rng.randrange(1, n + 1))
            deformed(code, random_circuit(rng, qubits, rng.randrange(0, 8)), False)
            deformed(code, random_circuit(rng, qubits, rng.randrange(0, 3)), True)
            paulis = stim.Circuit()
            paulis.append("X", [rng.randrange(n)])
            deformed(code, paulis, True)
            q3 = codes.CSSCode([[1, 1]], [[1, 2]], 3)
            must_raise(ValueError, q3.deformed, "H 0")
        ctx.case(f"deform-{i}-n{n}", run)


def named_deformation(ctx):
    for label, make in families.named_quantum().items():
        def run(make=make):
            code = make()
            if spec.q_of(code) != 2 or len(code) > 25:
                raise Skip("not a small qubit code")
            rng = ctx.rng(label)
            deformed(code, random_circuit(rng, list(range(len(code))), 12), False)
            deformed(code, random_circuit(rng, list(range(len(code))), 1), True)
        ctx.case(label, run)


GROUPS = [conjugation, defaults, deformation, named_deformation] + proofs('blocks', 'conjugation')
