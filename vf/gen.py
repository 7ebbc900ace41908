"""Pseudo-random generators of inputs (codes, matrices), all driven by an explicit random.Random."""
import numpy as np

from . import env  # noqa: F401
from . import la
from qldpc import codes

FIELDS = (2, 3, 4, 5)


def matrix(rng, r, n, q, density=None):
    density = density if density is not None else rng.choice([0.3, 0.5, 0.8])
    return np.array([[rng.randrange(1, q) if rng.random() < density else 0 for _ in range(n)] for _ in range(r)],
                    dtype=int).reshape(r, n)


def redundant(rng, M, q, extra=None):
    """Append random combinations of rows, zero rows, and shuffle."""
    r = len(M)
    extra = rng.randrange(0, 3) if extra is None else extra
    rows = [M]
    for _ in range(extra):
        c = np.array([[rng.randrange(q) for _ in range(r)]], dtype=int).reshape(1, r)
        rows.append(la.matmul(c, M, q).reshape(1, -1))
    M = np.vstack(rows).astype(int)
    perm = list(range(len(M)))
    rng.shuffle(perm)
    return M[perm]


def invertible(rng, k, q):
    while True:
        M = matrix(rng, k, k, q, 0.7)
        if k == 0 or la.rank(M, q) == k:
            return M


def random_symplectic(rng, n, q, steps=None):
    """Random symplectic 2n x 2n matrix S (rows; vectors act as v @ S), products of elementary maps."""
    S = np.eye(2 * n, dtype=int)

    def colop(dst, src, c):
        S[:, dst] = la.add(S[:, dst], la.mul(c, S[:, src], q), q)

    for _ in range(steps or 6 * n + 4):
        k = rng.randrange(4)
        i = rng.randrange(n)
        if k == 0:  # Fourier on i: (x, z) -> (-z, x)
            x, z = S[:, i].copy(), S[:, n + i].copy()
            S[:, i], S[:, n + i] = la.neg(z, q), x
        elif k == 1:  # phase: z += c x
            colop(n + i, i, rng.randrange(q))
        elif k == 2 and n > 1:  # sum: x_j += c x_i ; z_i -= c z_j
            j = rng.choice([j for j in range(n) if j != i])
            c = rng.randrange(q)
            colop(j, i, c)
            colop(n + i, n + j, int(la.neg(c, q)))
        elif k == 3:  # multiply: x *= c, z *= 1/c
            c = rng.randrange(1, q)
            S[:, i] = la.mul(c, S[:, i], q)
            S[:, n + i] = la.mul(int(la.tables(q)[3][c]), S[:, n + i], q)
    return S


def stabilizer_matrix(rng, n, s, q, extra=None):
    S = random_symplectic(rng, n, q)
    M = S[n:n + s]
    return redundant(rng, M, q, extra)


def css_stabilizer(rng, n, q, extra=None):
    rx = rng.randrange(0, n)
    hx = matrix(rng, rx, n, q)
    N = la.nullspace(hx.reshape(rx, n), q)
    rz = rng.randrange(0, len(N) + 1)
    c = matrix(rng, rz, len(N), q, 0.6)
    hz = la.matmul(c, N, q).reshape(rz, n) if rz else np.zeros((0, n), dtype=int)
    if extra != 0:
        if rx:
            hx = redundant(rng, hx, q, extra)
        if rz:
            hz = redundant(rng, hz, q, extra)
    return hx.reshape(-1, n), hz.reshape(-1, n)


def css_any(rng, n, q):
    """Arbitrary pair of X/Z check matrices (typically a subsystem code)."""
    hx = matrix(rng, rng.randrange(1, n + 1), n, q)
    hz = matrix(rng, rng.randrange(1, n + 1), n, q)
    return hx, hz


def css_subsystem(rng, n, q):
    """CSS subsystem code with chosen numbers of stabilizers and gauge qudits."""
    A = invertible(rng, n, q)  # x -> x A ; dual basis for z
    Ai = inverse(A, q).T
    sx = rng.randrange(0, n)
    sz = rng.randrange(0, n - sx)
    g = rng.randrange(0, n - sx - sz + 1)
    X = list(range(sx)) + list(range(sx + sz, sx + sz + g))
    Z = list(range(sx, sx + sz)) + list(range(sx + sz, sx + sz + g))
    hx, hz = A[X].reshape(-1, n), Ai[Z].reshape(-1, n)
    if len(hx):
        hx = redundant(rng, hx, q, rng.randrange(2))
    if len(hz):
        hz = redundant(rng, hz, q, rng.randrange(2))
    return hx, hz


def inverse(A, q):
    n = len(A)
    R, piv = la.rref(np.hstack([A, np.eye(n, dtype=int)]), q)
    return R[:, n:]


def gf(M, q):
    import galois
    return galois.GF(q)(np.array(M, dtype=int))


def classical(rng, q, nmax=6, **kw):
    n = rng.randrange(1, nmax + 1)
    r = rng.randrange(1, n + 2)
    code = codes.ClassicalCode(gf(matrix(rng, r, n, q, **kw), q))
    if rng.random() < 0.4 and code.dimension:  # attach another basis of the code space
        code.set_generator(gf(la.matmul(invertible(rng, code.dimension, q), np.array(code.generator, dtype=int), q), q))
    return code


def pauli_codes():
    """Small named qubit codes."""
    return {
        "five": codes.FiveQubitCode(), "steane": codes.SteaneCode(), "iceberg4": codes.IcebergCode(2),
        "iceberg6": codes.IcebergCode(3), "c4": codes.C4Code(), "c6": codes.C6Code(),
        "surface2": codes.SurfaceCode(2), "surface3": codes.SurfaceCode(3), "surface3u": codes.SurfaceCode(3, rotated=False),
        "surface23": codes.SurfaceCode(2, 3), "toric2": codes.ToricCode(2), "toric4": codes.ToricCode(4),
        "toric2u": codes.ToricCode(2, rotated=False), "bs2": codes.BaconShorCode(2), "bs23": codes.BaconShorCode(2, 3),
        "bs3": codes.BaconShorCode(3),
    }
