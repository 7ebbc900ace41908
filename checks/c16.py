"""C16: logical tableaus and transversal operations act as claimed.

The GAP executable is not available: the checks put an executable stand-in (vf/standins/gap) on PATH, which
fulfils the contract that the repository assumes of GAP (generators of the automorphism group of a linear code).
"""
import itertools
import os

import numpy as np
import stim

from vf import env, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise
from vf.proofs import groups as proofs
from qldpc import circuits, codes

QUICK_LIMIT, THOROUGH_LIMIT = 90, 600
A = spec.A
STANDINS = os.path.join(env.VERIF, "vf", "standins")


def use_standin():
    os.environ["PATH"] = STANDINS + os.pathsep + os.environ.get("PATH", "")


def pstr(row):
    n = len(row) // 2
    return stim.PauliString.from_numpy(xs=np.array(row[:n], dtype=bool), zs=np.array(row[n:], dtype=bool))


def vec(p):
    x, z = p.to_numpy()
    return np.concatenate([x, z]).astype(int)


def product(rows, coeffs, n):
    p = stim.PauliString(n)
    for c, r in zip(coeffs, rows):
        if c:
            p *= r if isinstance(r, stim.PauliString) else pstr(r)
    return p


def solve(basis, v):
    """Coefficients c with c @ basis = v over GF(2), or None."""
    k = len(basis)
    M = np.hstack([np.array(basis).T.reshape(len(v), k), np.array(v).reshape(-1, 1)])
    R, piv = la.rref(M, 2)
    if k in piv:
        return None
    c = np.zeros(k, dtype=int)
    for i, p in enumerate(piv):
        c[p] = R[i, k]
    return c


class Action:
    """The action of a Clifford tableau on the logical qubits of a code, from first principles."""

    def __init__(self, code, S=None, S_after=None):
        self.n, self.k = len(code), code.dimension
        self.L = A(code.get_logical_ops())
        self.S = A(code.get_stabilizer_ops()) if S is None else S
        self.S_after = self.S if S_after is None else S_after
        self.gauge = A(code.matrix)

    def preserves(self, tableau):
        """Stabilizers (with + signs) are mapped into the group generated by S_after (with + signs)."""
        for row in self.S:
            img = tableau(pstr(row))
            c = solve(self.S_after, vec(img))
            if c is None or product(self.S_after, c, self.n).sign != img.sign:
                return False
        return True

    def preserves_gauge(self, tableau):
        img = np.array([vec(tableau(pstr(r))) for r in self.gauge]).reshape(-1, 2 * self.n)
        return la.in_span(img, self.gauge, 2) if len(img) else True

    def logical(self, tableau):
        """Images of the logical operators as (coefficients, sign), up to stabilizers S_after."""
        n, k = self.n, self.k
        out = []
        for row in self.L:
            img = tableau(pstr(row))
            prods = la.symp(self.L, vec(img).reshape(1, -1), 2)[:, 0]  # <L_j, img>
            c = np.concatenate([prods[k:], prods[:k]])  # components along L
            # Hermitian product of logical operators: as stim writes X^a Z^b (Y for both) on each logical qubit
            p = stim.PauliString(n)
            for j in range(k):
                if c[j] and c[k + j]:
                    p *= 1j * (pstr(self.L[j]) * pstr(self.L[k + j]))
                elif c[j]:
                    p *= pstr(self.L[j])
                elif c[k + j]:
                    p *= pstr(self.L[k + j])
            rest = img * p
            s = solve(self.S_after, vec(rest))
            if s is None:
                out.append((tuple(c), None))  # differs by a gauge operator: the sign is not defined
                continue
            sign = (rest * product(self.S_after, s, n)).sign
            check(sign.imag == 0, "phase of a logical image")
            out.append((tuple(c), int(sign.real)))
        return out


def logical_of_tableau(t):
    k = len(t)
    return [(tuple(vec(p)), int(p.sign.real)) for p in [t.x_output(i) for i in range(k)] + [t.z_output(i) for i in range(k)]]


def same_logical(want, got, k, msg, signs=True):
    for i, ((cw, sw), (cg, sg)) in enumerate(zip(want, got)):
        name = f"{'X' if i < k else 'Z'}_{i % k}"
        check(cw == cg, lambda: f"{msg}: image of logical {name} is {cw}, reported {cg}")
        if signs and sw is not None:
            check(sw == sg, lambda: f"{msg}: image of logical {name} has sign {sw}, reported {sg}")


def random_circuit(rng, qubits, gates):
    c = stim.Circuit()
    for _ in range(gates):
        a = rng.choice(qubits)
        if len(qubits) > 1 and rng.random() < 0.5:
            b = rng.choice([q for q in qubits if q != a])
            c.append(rng.choice(["CX", "CZ", "CY", "SWAP", "ISWAP"]), [a, b])
        else:
            c.append(rng.choice(["H", "S", "S_DAG", "SQRT_X", "C_XYZ", "C_ZYX", "X", "Y", "Z", "H_YZ"]), a)
    return c


def preserving(rng, code, deform=False):
    """A random physical Clifford tableau that preserves the code space, built from the code's own operators."""
    n, k, g = len(code), code.dimension, code.gauge_dimension
    enc = circuits.get_encoding_tableau(code)  # contract C15: takes Paulis to logical, gauge and stabilizer operators
    d = stim.Circuit(f"I {n - 1}")
    if k:
        d += random_circuit(rng, list(range(k)), rng.randrange(0, 8))
    if g:
        d += random_circuit(rng, list(range(k, k + g)), rng.randrange(0, 6))
    rest = list(range(k + g, n))
    if deform:
        if len(rest):
            d += random_circuit(rng, rest, rng.randrange(0, 8))
    else:
        for _ in range(rng.randrange(0, 8)):
            if len(rest) > 1 and rng.random() < 0.5:
                d.append(rng.choice(["CX", "CZ", "SWAP"]), rng.sample(rest, 2))
            elif rest and rng.random() < 0.5:
                d.append(rng.choice(["S", "Z"]), rng.choice(rest))
            elif rest and k:
                s, l = rng.choice(rest), rng.randrange(k)
                d.append(rng.choice(["CX", "CZ", "CY"]), [s, l])
    return enc.inverse().then(d.to_tableau()).then(enc), enc


@contract("qldpc.circuits.get_logical_tableau")
def logical_tableau(code, rng):
    tableau, _ = preserving(rng, code)
    act = Action(code)
    check(act.preserves(tableau), "test input does not preserve the code")
    circuit = tableau.to_circuit(method="elimination")
    got = circuits.get_logical_tableau(code, circuit)
    check(len(got) == code.dimension, "size of the logical tableau")
    same_logical(act.logical(tableau), logical_of_tableau(got), code.dimension, "logical tableau")


@contract("qldpc.circuits.get_logical_tableau")
def composition(code, rng):
    """Logical tableaus compose as the physical circuits do; the identity acts as the identity."""
    t1, _ = preserving(rng, code)
    t2, _ = preserving(rng, code)
    l1, l2 = (circuits.get_logical_tableau(code, t.to_circuit()) for t in (t1, t2))
    l12 = circuits.get_logical_tableau(code, t1.to_circuit() + t2.to_circuit())
    check(l1.then(l2) == l12, "logical tableau of a composition")
    check(circuits.get_logical_tableau(code, stim.Circuit()) == stim.Tableau(code.dimension), "logical tableau of no gates")
    k, n, L = code.dimension, len(code), A(code.get_logical_ops())
    for _ in range(3):
        c = [rng.randrange(2) for _ in range(2 * k)]
        p = product(L, c, n)
        circuit = stim.Circuit()
        for i, x in enumerate(p):
            if x:
                circuit.append("IXYZ"[x], i)
        got = logical_of_tableau(circuits.get_logical_tableau(code, circuit))
        for i, (coeffs, sign) in enumerate(got):
            e = tuple(int(i == j) for j in range(2 * k))
            anti = la.symp(L[i:i + 1], la.matmul(np.array([c]), L, 2), 2)[0, 0]
            check(coeffs == e and sign == (-1 if anti else 1), "logical tableau of a logical Pauli operator")


@contract("qldpc.circuits.get_logical_tableau")
def deforming(code, rng):
    tableau, enc = preserving(rng, code, deform=True)
    circuit = tableau.to_circuit()
    S = A(code.get_stabilizer_ops())
    after = np.array([vec(tableau(pstr(r))) for r in S]).reshape(-1, 2 * len(code))
    got = circuits.get_logical_tableau(code, circuit, deform_code=True)
    act = Action(code, S_after=after)
    same_logical(act.logical(tableau), logical_of_tableau(got), code.dimension, "deformation")


# --------------------------------------------------------------------------- transversal operations

LOCAL = [np.array(m) for m in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[1, 1], [0, 1]], [[1, 0], [1, 1]], [[0, 1], [1, 1]], [[1, 1], [1, 0]])]
GATE = {"S": [[1, 1], [0, 1]], "H": [[0, 1], [1, 0]], "SQRT_X": [[1, 0], [1, 1]]}


def candidates(n, gates):
    """All symplectic matrices (acting on rows) that the allowed local gates and permutations generate."""
    local = [g for g in gates if g != "SWAP"]
    loc = [LOCAL[0]] if not local else [LOCAL[0], np.array(GATE[local[0]])] if len(local) == 1 else LOCAL
    perms = list(itertools.permutations(range(n))) if "SWAP" in gates else [tuple(range(n))]
    for choice in itertools.product(loc, repeat=n):
        M = np.zeros((2 * n, 2 * n), dtype=int)
        for i, m in enumerate(choice):
            M[np.ix_([i, n + i], [i, n + i])] = m
        for perm in perms:
            cols = list(perm) + [n + i for i in perm]
            yield M[:, cols]


def reachable(code, gates, deform):
    """Logical actions (modulo Paulis) of all transversal operations, by exhaustion."""
    n, k = len(code), code.dimension
    S, L, H = A(code.get_stabilizer_ops()), A(code.get_logical_ops()), A(code.matrix)
    J = spec.omega(n, 2)
    K = la.nullspace(H, 2)  # rows orthogonal to the row space of H
    KL = la.nullspace(L, 2)
    out = set()
    for M in candidates(n, gates):
        if deform:
            if ((S @ M) @ J @ L.T % 2).any() or ((L @ M) @ KL.T % 2).any():
                continue  # deformations are searched among those that preserve the group of logical operators
        elif ((H @ M) @ K.T % 2).any():
            continue
        prods = (L @ M) @ J @ L.T % 2  # <U L_i, L_j>
        out.add(np.hstack([prods[:, k:], prods[:, :k]]).tobytes())
    return out


def mod_pauli(t):
    k = len(t)
    return np.array([c for c, _ in logical_of_tableau(t)], dtype=int).reshape(2 * k, 2 * k)


def closure(mats, k):
    e = np.eye(2 * k, dtype=int)
    seen, todo = {e.tobytes()}, [e]
    while todo:
        x = todo.pop()
        for m in mats:
            y = x @ m % 2
            if y.tobytes() not in seen:
                seen.add(y.tobytes())
                todo.append(y)
    return seen


def gates_allowed(circuit, gates):
    local = [g for g in gates if g != "SWAP"]
    for inst in circuit:
        name, targets = inst.name, [t.value for t in inst.targets_copy()]
        if name in ("I", "X", "Y", "Z"):
            continue
        if name == "SWAP":
            check("SWAP" in gates, "SWAP gates were not allowed")
            continue
        check(stim.gate_data(name).is_single_qubit_gate and stim.gate_data(name).is_unitary, lambda: f"{name} is not a local gate")
        t = stim.Circuit(f"{name} 0").to_tableau()
        M = [list(vec(t.x_output(0))), list(vec(t.z_output(0)))]
        if len(local) == 0:
            check(M == [[1, 0], [0, 1]], lambda: f"{name} was not allowed")
        elif len(local) == 1:
            check(M in ([[1, 0], [0, 1]], GATE[local[0]]), lambda: f"{name} was not allowed")
        check(len(set(targets)) == len(targets), "targets")


def sound(code, circuit, tableau, gates, deform):
    n = len(code)
    gates_allowed(circuit, gates)
    check(circuit.num_qubits <= n, "the circuit acts on more qubits than the code has")
    t = (circuit + stim.Circuit(f"I {n - 1}")).to_tableau()
    if deform:
        S = A(code.get_stabilizer_ops())
        after = np.array([vec(t(pstr(r))) for r in S]).reshape(-1, 2 * n)
        L = A(code.get_logical_ops())
        check(not la.symp(after, L, 2).any(), "logical operators are not valid for the deformed code")
        act = Action(code, S_after=after)
        check(act.preserves(t), "the circuit does not map code states into the deformed code")
    else:
        act = Action(code)
        check(act.preserves(t), "the circuit does not preserve the stabilizer group")
        check(act.preserves_gauge(t), "the circuit does not preserve the gauge group")
    same_logical(act.logical(t), logical_of_tableau(tableau), code.dimension, "reported tableau")
    same_logical(logical_of_tableau(tableau),
                 logical_of_tableau(circuits.get_logical_tableau(code, circuit, deform_code=deform)), code.dimension, "get_logical_tableau")


@contract(["qldpc.circuits.get_transversal_ops", "qldpc.circuits.get_transversal_automorphism_group"])
def transversal_ops(code, gates, deform, remove):
    before = A(code.matrix).tobytes(), A(code.get_logical_ops()).tobytes()
    want = reachable(code, gates, deform)
    asked = [gates, list(gates), set(gates)][len(gates) % 3]  # any collection of gates
    ops = circuits.get_transversal_ops(code, asked, deform_code=deform, remove_redundancies=remove)
    check(len(asked) == len(gates) and set(asked) == set(gates), "the caller's collection of gates was changed")
    for tableau, circuit in ops:
        sound(code, circuit, tableau, gates, deform)
    check((A(code.matrix).tobytes(), A(code.get_logical_ops()).tobytes()) == before, "the code was changed")
    got = closure([mod_pauli(t) for t, _ in ops], code.dimension)
    check(got <= want, "an operation is not transversal")
    check(got >= want, lambda: f"the operations generate {len(got)} of {len(want)} logical actions")
    if remove:
        check(len({mod_pauli(t).tobytes() for t, _ in ops}) == len(ops), "redundant operations were kept")


@contract(["qldpc.circuits.get_transversal_circuit", "qldpc.circuits.get_transversal_circuits"])
def transversal_search(code, gates, deform, rng):
    k = code.dimension
    want = reachable(code, gates, deform)
    wanted, targets = [], []
    for M in sorted(want)[:200]:
        M = np.frombuffer(M, dtype=int).reshape(2 * k, 2 * k)
        if not np.array_equal(la.symp(M, M, 2), spec.omega(k, 2)):
            continue
        wanted.append(M)
    for M in rng.sample(wanted, min(len(wanted), 3)):
        xs, zs = [], []
        for i, row in enumerate(M):
            p = pstr(row)
            p.sign = rng.choice([1, -1])
            (xs if i < k else zs).append(p)
        targets.append(stim.Tableau.from_conjugated_generators(xs=xs, zs=zs))
    targets.append((stim.Circuit(f"I {k - 1}") + random_circuit(rng, list(range(k)), 5)).to_tableau())
    asked = [t if rng.random() < 0.5 else t.to_circuit() for t in targets]
    found = circuits.get_transversal_circuits(code, asked, gates, deform_code=deform)
    check(len(found) == len(targets), "number of answers")
    for t, c in zip(targets, found):
        possible = mod_pauli(t).tobytes() in want
        if c is None:
            check(not possible, "an operation that has a transversal implementation was not found")
            continue
        check(possible, "a circuit was found for an operation that has no transversal implementation")
        sound(code, c, t, gates, deform)
    if rng.random() < 0.3:
        c = circuits.get_transversal_circuit(code, targets[0], gates, deform_code=deform)
        check((c is None) == (found[0] is None), "get_transversal_circuit")
        if c is not None:
            sound(code, c, targets[0], gates, deform)


def some_code(rng, nmax, css_sub=True, kmin=1):
    while True:
        n = rng.randrange(1, nmax + 1)
        kind = rng.randrange(5)
        if kind <= 2:
            code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), 2, rng.choice([0, 1])), 2))
        elif kind == 3 or not css_sub:
            code = codes.CSSCode(*[gen.gf(h, 2) for h in gen.css_stabilizer(rng, n, 2)])
        else:
            code = codes.CSSCode(*[gen.gf(h, 2) for h in gen.css_subsystem(rng, n, 2)])
        # GAP does not describe automorphisms of codes without checks: see ASSUMPTIONS
        if code.dimension >= kmin and A(code.matrix).any() and consistent(code):
            return code


def symmetric_code(rng, n, gates):
    """A code with a symmetry that permutes qubits and applies local gates, of any order: the orbit of Pauli strings."""
    while True:
        perm = list(range(n))
        rng.shuffle(perm)
        local = [g for g in gates if g != "SWAP"]
        loc = [LOCAL[0]] if not local else [LOCAL[0], np.array(GATE[local[0]])] if len(local) == 1 else LOCAL
        M = np.zeros((2 * n, 2 * n), dtype=int)
        for i in range(n):
            M[np.ix_([i, n + i], [i, n + i])] = rng.choice(loc)
        M = M[:, perm + [n + i for i in perm]]
        rows = []
        for _ in range(rng.randrange(1, 3)):
            v = np.array([rng.randrange(2) for _ in range(2 * n)])
            while not any((v == r).all() for r in rows):
                rows.append(v)
                v = v @ M % 2
        rows = np.array(rows)
        if la.symp(rows, rows, 2).any() or not rows.any():
            continue
        code = codes.QuditCode(gen.gf(rows, 2))
        if code.dimension >= 1 and consistent(code):
            return code


def consistent(code):
    S = A(code.get_stabilizer_ops())
    return all(product(S, c, len(code)).sign == 1 for c in la.nullspace(S.T, 2)) if len(S) else True


NAMED = {"five": codes.FiveQubitCode, "steane": codes.SteaneCode, "c4": codes.C4Code, "c6": codes.C6Code, "iceberg3": lambda: codes.IcebergCode(3),
         "surface2": lambda: codes.SurfaceCode(2), "surface3": lambda: codes.SurfaceCode(3), "toric2": lambda: codes.ToricCode(2, rotated=False),
         "bs2": lambda: codes.BaconShorCode(2), "bs3": lambda: codes.BaconShorCode(3), "shp": lambda: codes.SHPCode(codes.RingCode(3), codes.RepetitionCode(2))}


def tableaus(ctx):
    for i in range(ctx.n(350, 6000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            code = some_code(rng, 6) if i % 3 else NAMED[rng.choice(sorted(NAMED))]()
            logical_tableau(code, rng)
            composition(code, rng)

        ctx.case(f"tableau-{i}", run)


def deformations(ctx):
    for i in range(ctx.n(250, 4000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            code = some_code(rng, 6, css_sub=False)
            deforming(code, rng)

        ctx.case(f"deform-{i}", run)


SETS = [("S",), ("H",), ("SQRT_X",), ("SWAP",), ("S", "H"), ("S", "SWAP"), ("H", "SWAP"), ("SQRT_X", "SWAP"), ("H", "SQRT_X"),
        ("S", "H", "SWAP"), ("S", "SQRT_X", "SWAP"), ("S", "H", "SQRT_X", "SWAP")]


def transversal(kind, part=0, parts=1):
    def group(ctx):
        use_standin()
        if kind == "edge":
            for bad in (("T",), ("S", "CX"), ("SQRT_Y",), ("H", "H_YZ")):
                ctx.case(f"reject-{bad}", must_raise, ValueError, circuits.get_transversal_ops, codes.C4Code(), bad)
            for s in (["X X"], ["Z Z"], ["Y Y"], ["X I I"], ["I I X"], ["Z I", "I X"], ["X I X I", "I Z I Y"], ["X Y Z"]):
                for gates in SETS:
                    ctx.case(f"edge-{'-'.join(s)}-{'+'.join(gates)}",
                             lambda s=s, g=gates: transversal_ops(codes.QuditCode.from_strings(*s), g, False, True))
            for s, gates in ((["Z I I I"], ("S", "H")), (["Z I I I"], ("H", "SWAP")), (["X I I I"], ("S", "SWAP")), (["Z I I", "I Z I"], ("S", "H", "SWAP")),
                             (["Z I I I", "I Z I I"], ("S", "H"))):  # many independent operations
                ctx.case(f"many-{'-'.join(s)}-{'+'.join(gates)}", lambda s=s, g=gates: transversal_ops(codes.QuditCode.from_strings(*s), g, False, True))
            return
        if kind == "symmetric":
            for i in range(ctx.n(60, 1500)):
                if ctx.left() < 0:
                    break

                def run(i=i):
                    rng = ctx.rng(i)
                    gates = rng.choice([g for g in SETS if "SWAP" in g])
                    code = symmetric_code(rng, rng.choice((3, 4, 4, 5)) if len(gates) < 3 else rng.choice((3, 3, 4)), gates)
                    if i % 3:
                        transversal_ops(code, gates, False, rng.random() < 0.7)
                    else:
                        transversal_search(code, gates, False, rng)

                ctx.case(f"symmetric-{i}", run)
            return
        for i in range(part, ctx.n(120, 2500), parts):
            if ctx.left() < 0:
                break

            def run(i=i):
                rng = ctx.rng(i)
                gates = rng.choice(SETS)
                deform = rng.random() < 0.3
                nmax = 4 if len(gates) < 3 or ctx.tier != "quick" else 3
                code = codes.C4Code() if i % 10 == 0 else codes.BaconShorCode(2) if i % 10 == 5 else some_code(rng, nmax, css_sub=not deform)
                if deform and code.is_subsystem_code:
                    deform = False
                if kind == "ops":
                    transversal_ops(code, gates, deform, rng.random() < 0.7)
                else:
                    transversal_search(code, gates, deform, rng)

            ctx.case(f"{kind}-{i}", run)
        if kind == "ops" and part == 0:
            for gates in (("S", "SWAP"), ("H", "SWAP"), ("S", "H"), ("SQRT_X",)) + ctx.n((), (("S", "H", "SWAP"),)):
                ctx.case(f"five-{'+'.join(gates)}", lambda g=gates: transversal_ops(codes.FiveQubitCode(), g, False, True), limit=200)

    return group


GROUPS = {"tableaus": tableaus, "deformations": deformations, "edge": transversal("edge"),
          "ops_0": transversal("ops", 0, 2), "ops_1": transversal("ops", 1, 2),
          "symmetric": transversal("symmetric"),
          "search_0": transversal("search", 0, 2), "search_1": transversal("search", 1, 2)}
GROUPS.update({g.__name__: g for g in proofs("transversal", "logical", "data", "pieces", "permutations", "lists", "searches", "transversal_lemmas")})
