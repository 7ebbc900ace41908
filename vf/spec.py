"""Contracts of code objects, as executable postconditions over concrete values.

Every function states a postcondition of the named function(s) of /repo; it calls the real function
and evaluates the clause with the independent linear algebra of vf.la.
"""
import itertools

import numpy as np

from . import la
from .harness import check, contract
from qldpc import codes
from qldpc.objects import Pauli

C = "qldpc.codes.common."


def A(x):
    return np.array(x, dtype=int)


def q_of(code):
    return code.field.order


# --------------------------------------------------------------------------- C01


@contract([C + "CSSCode.matrix", C + "CSSCode.__init__"])
def css_layout(code):
    hx, hz = A(code.matrix_x), A(code.matrix_z)
    n = len(code)
    check(hx.ndim == 2 and hz.ndim == 2 and hx.shape[1] == hz.shape[1] == n, "X and Z checks have different lengths")
    H = A(code.matrix)
    check(H.shape == (len(hx) + len(hz), 2 * n), f"matrix shape {H.shape}")
    check(np.array_equal(H, la.block_diag(hx, hz)), "matrix is not the block-diagonal of X and Z checks")
    check(np.array_equal(A(code.get_matrix(Pauli.X)), hx) and np.array_equal(A(code.get_matrix(Pauli.Z)), hz), "get_matrix")


@contract([C + "QuditCode.__init__", "qldpc.math.symplectic_conjugate"])
def commuting(code):
    """not is_subsystem_code  ==>  symp(H, H) = 0"""
    q = q_of(code)
    H = A(code.matrix)
    check(H.min(initial=0) >= 0 and H.max(initial=0) < q, "entries outside of the field")
    if isinstance(code, codes.CSSCode):
        css_layout(code)
    if not code.is_subsystem_code:
        P = la.symp(H, H, q)
        check(not P.any(), lambda: f"checks {np.argwhere(P)[0].tolist()} of a stabilizer code do not commute")


@contract([C + "QuditCode.__init__", C + "CSSCode.__init__"])
def flag_exact(code):
    """is_subsystem_code <=> some pair of checks does not commute (for codes built without the flag)"""
    q = q_of(code)
    H = A(code.matrix)
    check(bool(code.is_subsystem_code) == bool(la.symp(H, H, q).any()), "is_subsystem_code is wrong")


# --------------------------------------------------------------------------- C02


def omega(k, q):
    J = np.zeros((2 * k, 2 * k), dtype=int)
    J[:k, k:] = np.eye(k, dtype=int)
    J[k:, :k] = la.neg(np.eye(k, dtype=int), q)
    return J


def stab_space(H, q):
    """Centre of the gauge group: {v in rowspace(H) : v commutes with rowspace(H)}."""
    H = la.rref(H, q)[0]
    if len(H) == 0:
        return H
    P = la.symp(H, H, q)
    N = la.nullspace(P.T, q)  # combinations c with c P = 0
    return la.matmul(N, H, q).reshape(-1, H.shape[1])


@contract([C + "QuditCode.get_logical_ops", C + "CSSCode.get_logical_ops", C + "QuditCode.get_standard_form_data",
           C + "CSSCode.get_standard_form_data_xz"])
def logical_ops(code, L=None):
    q, n, k = q_of(code), len(code), code.dimension
    L = A(code.get_logical_ops() if L is None else L)
    check(L.shape == (2 * k, 2 * n), f"logical operators have shape {L.shape}, expected {(2 * k, 2 * n)}")
    check(not la.symp(A(code.matrix), L, q).any(), "a logical operator does not commute with a parity check")
    check(np.array_equal(la.symp(L, L, q), omega(k, q)), "logical operators are not a symplectic basis")


@contract([C + "QuditCode.get_stabilizer_ops", C + "CSSCode.get_stabilizer_ops"])
def stabilizer_ops(code, **kw):
    q = q_of(code)
    S = A(code.get_stabilizer_ops(**kw))
    want = stab_space(A(code.matrix), q)
    check(S.ndim == 2 and S.shape[1] == 2 * len(code), f"shape {S.shape}")
    check(la.same_span(S, want, q), "stabilizers do not span the centre of the gauge group")
    if kw.get("canonicalized"):
        check(np.array_equal(la.rref(S, q)[0], S) or len(S) == 0, "stabilizers requested in canonical form are not")


@contract([C + "QuditCode.get_gauge_ops", C + "CSSCode.get_gauge_ops", C + "QuditCode.get_dual_subsystem_code",
           C + "CSSCode.get_dual_subsystem_code"])
def gauge_ops(code):
    q, n = q_of(code), len(code)
    g = code.gauge_dimension
    G = A(code.get_gauge_ops())
    check(G.shape == (2 * g, 2 * n), f"gauge operators have shape {G.shape}, expected {(2 * g, 2 * n)}")
    check(np.array_equal(la.symp(G, G, q), omega(g, q)), "gauge operators are not a symplectic basis")
    H = A(code.matrix)
    S = A(code.get_stabilizer_ops())
    check(not la.symp(S, G, q).any(), "gauge operators do not commute with stabilizers")
    check(la.same_span(la.stack(S, G), H, q), "stabilizers and gauge operators do not generate the gauge group")
    L = A(code.get_logical_ops())
    check(not la.symp(L, G, q).any(), "logical and gauge operators do not commute")


@contract([C + "CSSCode.get_logical_ops", C + "CSSCode.get_stabilizer_ops", C + "CSSCode.get_gauge_ops",
           C + "QuditCode.get_logical_ops", C + "QuditCode.get_stabilizer_ops", C + "QuditCode.get_gauge_ops"])
def typed_requests(code, computed=True):
    """Requests for one Pauli type return exactly the operators of that type."""
    n, k, g, q = len(code), code.dimension, code.gauge_dimension, q_of(code)
    L, G, S = A(code.get_logical_ops()), A(code.get_gauge_ops()), A(code.get_stabilizer_ops(canonicalized=True))
    css = isinstance(code, codes.CSSCode)
    for p in (Pauli.X, Pauli.Z):
        i = 0 if p is Pauli.X else 1
        half = slice(i * n, (i + 1) * n)
        other = slice((1 - i) * n, (2 - i) * n)
        if css:
            check(np.array_equal(A(code.get_logical_ops(p, symplectic=True)), L[i * k:(i + 1) * k]), f"logicals {p} symplectic")
            check(np.array_equal(A(code.get_logical_ops(p)), L[i * k:(i + 1) * k, half]), f"logicals {p}")
            check(not L[i * k:(i + 1) * k, other].any(), f"{p}-type logicals of a CSS code have support of the other type")
            check(np.array_equal(A(code.get_gauge_ops(p, symplectic=True)).reshape(-1, 2 * n), G[i * g:(i + 1) * g]), f"gauge ops {p} symplectic")
            check(np.array_equal(A(code.get_gauge_ops(p)).reshape(-1, n), G[i * g:(i + 1) * g, half]), f"gauge ops {p}")
            check(not G[i * g:(i + 1) * g, other].any(), f"{p}-type gauge ops of a CSS code have support of the other type")
            Sp = A(code.get_stabilizer_ops(p))
            Hp = stab_space(A(code.matrix), q)
            want = Hp[~Hp[:, other].any(axis=1)][:, half] if len(Hp) else Hp[:, half]
            check(Sp.shape[1] == n, f"stabilizers {p}: shape {Sp.shape}")
            full = np.zeros((len(Sp), 2 * n), dtype=int)
            full[:, half] = Sp
            check(la.in_span(full, Hp, q) if len(Sp) else True, f"{p}-type stabilizer outside of the stabilizer group")
            # the stabilizer group of a CSS code is the direct sum of its X and Z parts
            px = la.rref(Hp, q)[0][:, half]
            check(la.rank(Sp, q) == la.rank(px, q), f"{p}-type stabilizers are incomplete")
            check(np.array_equal(A(code.get_stabilizer_ops(p, symplectic=True)), full), f"stabilizers {p} symplectic")
            Sc = A(code.get_stabilizer_ops(p, canonicalized=True))
            check(la.same_span(Sc, Sp, q) and len(Sc) == la.rank(Sc, q), f"canonicalized {p}-type stabilizers")
        else:
            check(np.array_equal(A(code.get_logical_ops(p)), L[i * k:(i + 1) * k]), f"logicals {p}")
            if computed and not code.is_subsystem_code:  # logical operators that were set may have any support
                check(not L[k:, :n].any(), "Z-type logicals have X support")


def full_operator_contract(code, computed=True):
    logical_ops(code)
    stabilizer_ops(code)
    stabilizer_ops(code, canonicalized=True)
    gauge_ops(code)
    typed_requests(code, computed)
    # recomputing must stay consistent
    logical_ops(code, code.get_logical_ops(recompute=True))
    stabilizer_ops(code, recompute=True)
    logical_ops(code)


# --------------------------------------------------------------------------- C03


@contract([C + "QuditCode.rank/dimension/gauge_dimension", C + "CSSCode.rank", C + "QuditCode.canonicalized",
           C + "CSSCode.canonicalized"])
def quantum_params(code):
    q, n = q_of(code), len(code)
    H = A(code.matrix)
    check(H.shape == (code.num_checks, 2 * n), f"matrix has shape {H.shape}, num_checks={code.num_checks}, n={n}")
    check(code.num_qudits == n, "num_qudits")
    if q == 2:
        check(code.num_qubits == n, "num_qubits")
    r = la.rank(H, q)
    s = len(stab_space(H, q))
    check(code.rank == r, f"rank {code.rank} != {r}")
    want_k = n - (r + s) // 2
    check(code.dimension == want_k, f"dimension {code.dimension} != {want_k}")
    check(code.gauge_dimension == (r - s) // 2, f"gauge dimension {code.gauge_dimension} != {(r - s) // 2}")
    Cn = code.canonicalized
    canon(Cn, code)
    check(Cn.is_subsystem_code == code.is_subsystem_code, "canonicalized code has a different type")
    w = np.array([la.symp_weight(row) for row in H])
    if len(w):
        check(code.get_weight() == w.max(), f"check weight {code.get_weight()} != {w.max()}")


@contract([C + "ClassicalCode.rank/dimension", C + "ClassicalCode.canonicalized", C + "ClassicalCode.get_weight"])
def classical_params(code):
    q, n = q_of(code), len(code)
    H = A(code.matrix)
    check(H.shape == (code.num_checks, n) and code.num_bits == n, f"shape {H.shape}, n={n}")
    r = la.rank(H, q)
    check(code.rank == r, f"rank {code.rank} != {r}")
    check(code.dimension == n - r, f"dimension {code.dimension} != {n - r}")
    canon(code.canonicalized, code)
    if len(H):
        check(code.get_weight() == max(np.count_nonzero(row) for row in H), "check weight")


@contract([C + "ClassicalCode.canonicalized", C + "QuditCode.canonicalized", C + "CSSCode.canonicalized"])
def canon(can, code):
    q = q_of(code)
    check(can.field is code.field, "canonicalized code over a different field")
    mats = [(A(can.matrix), A(code.matrix))]
    if isinstance(code, codes.CSSCode):
        mats = [(A(can.matrix_x), A(code.matrix_x)), (A(can.matrix_z), A(code.matrix_z))]
    for c, h in mats:
        check(np.array_equal(c, la.rref(h, q)[0].reshape(-1, h.shape[1])), "canonicalized matrix is not the RREF without zero rows")


@contract([C + "AbstractCode.equiv", C + "CSSCode.equiv"])
def equiv(code_a, code_b, cls):
    same = (code_a.field is code_b.field and A(code_a.matrix).shape[1] == A(code_b.matrix).shape[1]
            and la.same_span(A(code_a.matrix), A(code_b.matrix), q_of(code_a)))
    check(bool(cls.equiv(code_a, code_b)) == same, f"equiv() is not {same}")


# --------------------------------------------------------------------------- distances (oracles)


def min_weight_classical(G, q, vector=None):
    W = la.words(la.rref(G, q)[0], q)
    if vector is not None:
        return min(np.count_nonzero(la.add(W, la.neg(vector, q), q), axis=1))
    w = np.count_nonzero(W, axis=1)
    w = w[w > 0]
    return int(w.min()) if len(w) else float("nan")


def quantum_distance(H, q, sector=None, n=None):
    """Minimum weight of operators that commute with the stabilizer... centralizer(H) * gauge group, nontrivial.

    Dressed distance: operators in <L, G> with a nontrivial logical part = centralizer(S) minus gauge group.
    sector 0/1 restricts to X-type/Z-type operators.
    """
    n = H.shape[1] // 2
    S = stab_space(H, q)
    N = la.symp_complement(S, q) if len(S) else np.eye(2 * n, dtype=int)
    if sector is not None:
        keep = slice(sector * n, (sector + 1) * n)
        drop = slice((1 - sector) * n, (2 - sector) * n)
        c = la.nullspace(N[:, drop].T, q)  # combinations of rows with no support in the dropped sector
        N = la.matmul(c, N, q).reshape(-1, 2 * n)
    # x in N is trivial iff it lies in rowspace(H)
    K = la.nullspace(H, q)  # H K^T = 0: x in rowspace(H) iff K x = 0
    W = la.words(la.rref(N, q)[0], q)
    nontrivial = la.matmul(W, K.T, q).any(axis=1) if len(K) else np.zeros(len(W), dtype=bool)
    if not nontrivial.any():
        return float("nan")
    return int(la.symp_weight(W[nontrivial]).min())
