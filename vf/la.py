"""Independent linear algebra over GF(q) on plain integer arrays (the specification side).

Only the scalar addition/multiplication tables of prime-power fields are taken from galois;
elimination, ranks and spans are computed here.
"""
import functools

import galois
import numpy as np


@functools.cache
def tables(q):
    F = galois.GF(q)
    if F.degree == 1:
        a = np.arange(q)
        add = (a[:, None] + a[None, :]) % q
        mul = (a[:, None] * a[None, :]) % q
    else:
        e = F.elements
        add = np.array(e[:, None] + e[None, :], dtype=int)
        mul = np.array(e[:, None] * e[None, :], dtype=int)
    neg = np.array([int(np.argmin(add[i])) for i in range(q)])
    inv = np.zeros(q, dtype=int)
    for i in range(1, q):
        inv[i] = int(np.where(mul[i] == 1)[0][0])
    return add, mul, neg, inv


def arr(M, ncols=None):
    M = np.array(M, dtype=int)
    if M.ndim == 1 and M.size == 0:
        M = M.reshape(0, ncols or 0)
    return M


def is_prime(q):
    return q > 1 and all(q % i for i in range(2, int(q**0.5) + 1))


def add(A, B, q):
    A, B = np.array(A, dtype=int), np.array(B, dtype=int)
    return (A + B) % q if is_prime(q) else tables(q)[0][A, B]


def neg(A, q):
    A = np.array(A, dtype=int)
    return (-A) % q if is_prime(q) else tables(q)[2][A]


def mul(A, B, q):
    A, B = np.array(A, dtype=int), np.array(B, dtype=int)
    return (A * B) % q if is_prime(q) else tables(q)[1][A, B]


def matmul(A, B, q):
    A, B = np.array(A, dtype=int), np.array(B, dtype=int)
    if is_prime(q):
        return (A @ B) % q
    vec = A.ndim == 1, B.ndim == 1
    if vec[0]:
        A = A[None, :]
    if vec[1]:
        B = B[:, None]
    at, mt = tables(q)[:2]
    out = np.zeros((A.shape[0], B.shape[1]), dtype=int)
    for k in range(A.shape[1]):
        out = at[out, mt[A[:, k][:, None], B[k][None, :]]]
    if vec[0]:
        out = out[0]
    if vec[1]:
        out = out[..., 0]
    return out


def rref(M, q):
    M = arr(M).copy()
    rows, cols = M.shape
    at, mt, ng, inv = tables(q)
    piv, r = [], 0
    for c in range(cols):
        nz = [i for i in range(r, rows) if M[i, c]]
        if not nz:
            continue
        i = nz[0]
        if i != r:
            M[[r, i]] = M[[i, r]]
        M[r] = mt[inv[M[r, c]], M[r]]
        for i in range(rows):
            if i != r and M[i, c]:
                M[i] = at[M[i], mt[ng[M[i, c]], M[r]]]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M[:r], piv


def rank(M, q):
    M = arr(M)
    return 0 if M.size == 0 else len(rref(M, q)[1])


def nullspace(M, q):
    """Basis (rows) of {x : M x = 0}."""
    M = arr(M)
    n = M.shape[1]
    R, piv = rref(M, q) if M.size else (M[:0], [])
    free = [c for c in range(n) if c not in piv]
    N = np.zeros((len(free), n), dtype=int)
    ng = tables(q)[2]
    for i, f in enumerate(free):
        N[i, f] = 1
        for r, p in enumerate(piv):
            N[i, p] = ng[R[r, f]]
    return N


def stack(*Ms):
    n = max(arr(M).shape[1] for M in Ms if arr(M).ndim == 2)
    return np.vstack([arr(M, n).reshape(-1, n) for M in Ms]).astype(int)


def same_span(A, B, q):
    A, B = arr(A), arr(B)
    if A.shape[-1] != B.shape[-1]:
        return False
    ra, rb = rank(A, q), rank(B, q)
    return ra == rb == rank(stack(A, B), q)


def in_span(v, A, q):
    A = arr(A)
    v = np.array(v, dtype=int).reshape(-1, A.shape[1])
    return rank(stack(A, v), q) == rank(A, q)


def symp(A, B, q):
    """Matrix of symplectic products <a_i, b_j> = a_x . b_z - a_z . b_x."""
    A, B = arr(A), arr(B)
    n = A.shape[1] // 2
    xz = matmul(A[:, :n], B[:, n:].T, q)
    zx = matmul(A[:, n:], B[:, :n].T, q)
    return add(xz, neg(zx, q), q)


def symp_complement(A, q):
    """Basis of all vectors with zero symplectic product with all rows of A."""
    A = arr(A)
    n = A.shape[1] // 2
    return nullspace(np.hstack([neg(A[:, n:], q), A[:, :n]]), q)


def all_vectors(k, q):
    import itertools
    return np.array(list(itertools.product(range(q), repeat=k)), dtype=int).reshape(-1, k)


def words(G, q):
    G = arr(G)
    return matmul(all_vectors(len(G), q), G, q) if len(G) else np.zeros((1, G.shape[1]), dtype=int)


def weight(v):
    return int(np.count_nonzero(v))


def symp_weight(v):
    n = v.shape[-1] // 2
    return np.count_nonzero((v[..., :n] != 0) | (v[..., n:] != 0), axis=-1)


def kron(A, B, q):
    A, B = arr(A), arr(B)
    out = np.zeros((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=int)
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            out[i * B.shape[0]:(i + 1) * B.shape[0], j * B.shape[1]:(j + 1) * B.shape[1]] = mul(A[i, j], B, q)
    return out


def block_diag(*Ms):
    Ms = [arr(M) for M in Ms]
    out = np.zeros((sum(M.shape[0] for M in Ms), sum(M.shape[1] for M in Ms)), dtype=int)
    r = c = 0
    for M in Ms:
        out[r:r + M.shape[0], c:c + M.shape[1]] = M
        r += M.shape[0]
        c += M.shape[1]
    return out
