"""C15: encoding circuits prepare code states for every qubit code."""
import numpy as np
import stim

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise
from qldpc import circuits, codes

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
A = spec.A


def pstr(row):
    n = len(row) // 2
    return stim.PauliString.from_numpy(xs=np.array(row[:n], dtype=bool), zs=np.array(row[n:], dtype=bool))


def vec(p):
    x, z = p.to_numpy()
    return np.concatenate([x, z]).astype(int)


def consistent_signs(S):
    """No product of the stabilizers (with + signs) equals minus the identity."""
    R = la.nullspace(S.T, 2)
    for c in R:
        p = stim.PauliString(S.shape[1] // 2)
        for i in np.flatnonzero(c):
            p *= pstr(S[i])
        if p.sign != 1:
            return False
    return True


@contract(["qldpc.circuits.get_encoding_circuit", "qldpc.circuits.get_encoding_tableau"])
def encoder(code):
    n, k, g = len(code), code.dimension, code.gauge_dimension
    H = A(code.matrix)
    L = A(code.get_logical_ops())
    S = A(code.get_stabilizer_ops())
    G = A(code.get_gauge_ops())
    circuit = circuits.get_encoding_circuit(code)
    tableau = circuits.get_encoding_tableau(code)
    check(np.array_equal(A(code.matrix), H) and np.array_equal(A(code.get_logical_ops()), L), "the code was changed")
    check(circuit.num_qubits == n and circuit.num_measurements == 0, lambda: f"circuit acts on {circuit.num_qubits} of {n} qubits")
    check(len(tableau) == n and circuit.to_tableau() == tableau, "circuit and tableau differ")
    sim = stim.TableauSimulator()
    sim.do(circuit)
    check(len(sim.current_inverse_tableau()) == n, "number of simulated qubits")
    signed = consistent_signs(S)
    for row in S:
        e = sim.peek_observable_expectation(pstr(row))
        check(e == 1 or (e and not signed), lambda: f"stabilizer {pstr(row)} has expectation {e}")
    for row in L[k:]:
        e = sim.peek_observable_expectation(pstr(row))
        check(e == 1, lambda: f"logical Z operator {pstr(row)} has expectation {e}")
    for row in L[:k]:
        check(sim.peek_observable_expectation(pstr(row)) == 0, "logical X operator has a definite value")
    # images of the single-qubit operators
    images_x, images_z = [tableau.x_output(i) for i in range(n)], [tableau.z_output(i) for i in range(n)]
    for i in range(k):
        check(images_x[i] == pstr(L[i]), lambda: f"X_{i} is mapped to {images_x[i]}, not to the logical operator {pstr(L[i])}")
        check(images_z[i] == pstr(L[k + i]), lambda: f"Z_{i} is mapped to {images_z[i]}, not to the logical operator {pstr(L[k + i])}")
    gx = np.array([vec(p) for p in images_x[k:k + g]]).reshape(g, 2 * n)
    gz = np.array([vec(p) for p in images_z[k:k + g]]).reshape(g, 2 * n)
    st = np.array([vec(p) for p in images_z[k + g:]]).reshape(n - k - g, 2 * n)
    check(la.same_span(st, S, 2), "Z operators of the remaining qubits are not mapped to the stabilizer group")
    check(la.same_span(la.stack(gx, gz, st), H, 2), "gauge qubits are not mapped into the gauge group")
    if g:
        check(np.array_equal(np.vstack([gx, gz]), G), "images of gauge qubits are not the gauge operators of the code")
    V = np.array([vec(p) for p in images_x + images_z])
    check(np.array_equal(la.symp(V, V, 2), spec.omega(n, 2)), "the tableau is not symplectic")


@contract(["qldpc.circuits.get_encoder_and_decoder"])
def decoder(code):
    enc, dec = circuits.get_encoder_and_decoder(code)
    check(enc.then(dec) == stim.Tableau(len(code)) and dec.then(enc) == stim.Tableau(len(code)), "decoder is not the inverse of the encoder")
    check(enc == circuits.get_encoding_tableau(code), "the encoder is not the encoding tableau")


def both(code):
    encoder(code)
    decoder(code)


def random_stabilizer(ctx):
    for i in range(ctx.n(300, 6000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            n = rng.randrange(1, 8)
            M = gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), 2, rng.choice([0, 0, 1, None]))
            both(codes.QuditCode(gen.gf(M, 2)))

        ctx.case(f"stabilizer-{i}", run)


def random_css(ctx):
    for i in range(ctx.n(300, 6000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            n = rng.randrange(1, 8)
            kind = rng.randrange(3)
            hx, hz = [gen.css_stabilizer, gen.css_any, gen.css_subsystem][kind](rng, n, 2)
            both(codes.CSSCode(gen.gf(hx, 2), gen.gf(hz, 2)))

        ctx.case(f"css-{i}", run)


def rejected(f, code):
    """Rejected because of its field, also when it is passed by keyword."""
    try:
        f(code=code)
    except ValueError:
        return
    check(False, "a code over another field was accepted")


def edge(ctx):
    z = np.zeros
    for n in (1, 2, 5):
        ctx.case(f"no-checks-{n}", lambda n=n: both(codes.CSSCode(z((0, n), int), z((0, n), int), field=2)))
        ctx.case(f"zero-checks-{n}", lambda n=n: both(codes.QuditCode(z((2, 2 * n), int), field=2)))
    for strings in (["X"], ["Z"], ["Y"], ["X X", "Y Y"], ["Y Y", "Z Z"], ["X X", "Z Z"], ["Y I Y", "Y Y I"], ["I I Z"],
                    ["X Y Z", "Z Z I"], ["Y Y Y Y", "X X X X"], ["X X I I", "I I Y Y", "Y Y X X"]):
        ctx.case("-".join(strings), lambda s=strings: both(codes.QuditCode.from_strings(*s)))
    for q in (3, 4, 5):
        for make in (lambda: codes.SurfaceCode(2, field=q), lambda: codes.QuditCode(gen.gf([[1, 0]], q)),
                     lambda: codes.BaconShorCode(2, field=q)):
            code = make()
            for name in ("get_encoding_circuit", "get_encoding_tableau", "get_encoder_and_decoder",
                         "get_transversal_ops", "get_transversal_automorphism_group"):
                ctx.case(f"reject-{q}-{code.name}-{name}", must_raise, ValueError, getattr(circuits, name), code)
                ctx.case(f"reject-{q}-{code.name}-{name}-keyword", rejected, getattr(circuits, name), code)
            ctx.case(f"reject-{q}-{code.name}-logical", must_raise, ValueError, circuits.get_logical_tableau, code, stim.Circuit("H 0"))
            ctx.case(f"reject-{q}-{code.name}-find", must_raise, ValueError, circuits.get_transversal_circuit, code, stim.Circuit("H 0"))


def named(ctx):
    for label, make in families.named_quantum().items():
        if ctx.left() < 0:
            break

        def run(make=make):
            code = make()
            if spec.q_of(code) != 2:
                must_raise(ValueError, circuits.get_encoding_circuit, code)
                return
            if len(code) > ctx.n(40, 100):
                raise Skip("large")
            both(code)

        ctx.case(label, run)

    def derived(make, i):
        rng = ctx.rng(i)
        code = make()
        if len(code) > 30:
            raise Skip("large")
        n = len(code)
        if i % 3 == 0:
            both(code.conjugated(sorted(rng.sample(range(n), rng.randrange(0, n + 1)))) if not code.is_subsystem_code else code)
        elif i % 3 == 1 and not code.is_subsystem_code:
            circuit = stim.Circuit()
            for _ in range(6):
                a, b = rng.randrange(n), rng.randrange(n)
                circuit.append(rng.choice(["H", "S", "SQRT_X", "C_XYZ"]), a)
                if a != b:
                    circuit.append(rng.choice(["CX", "CZ", "SWAP"]), [a, b])
            both(code.deformed(circuit))
        elif n <= 12:
            both(codes.QuditCode.stack(code, codes.FiveQubitCode()) if not code.is_subsystem_code else code)

    for i, (label, make) in enumerate(gen_codes().items()):
        for j in range(3):
            ctx.case(f"derived-{label}-{j}", derived, make, 3 * i + j)


def gen_codes():
    return {k: (lambda c=c: c) for k, c in gen.pauli_codes().items()}


GROUPS = {"random_stabilizer": random_stabilizer, "random_css": random_css, "edge": edge, "named": named}
GROUPS.update({g.__name__: g for g in proofs("encoders", "tableau", "signs", "strings", "around", "encoding_lemmas")})
