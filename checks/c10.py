"""C10: group algebra elements obey ring axioms and lift as homomorphisms."""
import functools
import itertools

import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise
from qldpc import abstract

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
R = "qldpc.abstract.RingMember."
RA = "qldpc.abstract.RingArray."
A = spec.A


def groups():
    out = dict(families.abelian_groups())
    out.update(families.nonabelian_groups())
    out["trivial"] = abstract.TrivialGroup()
    out["abelian23sum"] = abstract.AbelianGroup(2, 3, direct_sum=True)
    out["abelian22"] = abstract.AbelianGroup(2, 2)
    out["abelian124"] = abstract.AbelianGroup(1, 2, 4)
    out["SL22"] = abstract.SL(2, 2)
    out["D3xC2"] = abstract.DihedralGroup(3) * abstract.CyclicGroup(2)
    out["S3-points"] = abstract.Group(abstract.GroupMember([1, 0, 2, 3]), abstract.GroupMember([0, 2, 1, 3]),
                                      lift=lambda m: m.to_matrix())
    out["C4-points"] = abstract.Group(abstract.GroupMember([1, 2, 3, 0]), lift=lambda m: m.to_matrix())
    return out


PERM_LIFT = {"Q8": False, "SL22": False}  # the lifts of all others are permutation matrices


# ---- the group algebra, independently: dictionaries from permutation tuples to field integers


def key(member):
    return tuple(member.array_form)


def pm(a, b):
    return tuple(b[i] for i in a)  # apply a, then b


def vec(x):
    out = {}
    q = x.ring.field.order
    for val, member in x:
        k = key(member)
        out[k] = int(la.add(out.get(k, 0), int(val), q))
    return {k: v for k, v in out.items() if v}


def d_add(a, b, q):
    out = dict(a)
    for k, v in b.items():
        out[k] = int(la.add(out.get(k, 0), v, q))
    return {k: v for k, v in out.items() if v}


def d_scale(c, a, q):
    return {k: int(la.mul(c, v, q)) for k, v in a.items() if la.mul(c, v, q)}


def d_mul(a, b, q):
    out = {}
    for (ka, va), (kb, vb) in itertools.product(a.items(), b.items()):
        k = pm(ka, kb)
        out[k] = int(la.add(out.get(k, 0), la.mul(va, vb, q), q))
    return {k: v for k, v in out.items() if v}


def d_inv(k):
    out = [0] * len(k)
    for i, j in enumerate(k):
        out[j] = i
    return tuple(out)


def scalar(c, q):
    """The field element c * 1 of an integer c."""
    p = next(p for p in range(2, q + 1) if q % p == 0)
    return c % p


def rand_el(rng, ring, members, terms=None):
    q = ring.field.order
    t = rng.randrange(0, 5) if terms is None else terms
    return abstract.RingMember(ring, *[(rng.randrange(q), rng.choice(members)) if rng.random() < 0.8 else rng.choice(members)
                                       for _ in range(t)])


@contract([R + m for m in ("__init__", "__add__", "__radd__", "__sub__", "__neg__", "__mul__", "__rmul__", "__pow__", "T",
                           "__eq__", "__bool__", "copy")])
def algebra(ring, members, rng):
    q = ring.field.order
    a, b, c = (rand_el(rng, ring, members) for _ in range(3))
    g = rng.choice(members)
    va, vb, vc = vec(a), vec(b), vec(c)
    n = rng.randrange(-4, 6)
    e1 = {key(ring.group.identity): 1}
    eq = lambda x, want, what: check(vec(x) == want and x.ring == ring, lambda: f"{what}: {vec(x)} instead of {want}")
    eq(a + b, d_add(va, vb, q), "a + b")
    eq(a - b, d_add(va, d_scale(scalar(-1, q), vb, q), q), "a - b")
    eq(-a, d_scale(scalar(-1, q), va, q), "-a")
    eq(a * b, d_mul(va, vb, q), "a * b")
    eq(a + g, d_add(va, {key(g): 1}, q), "a + g")
    eq(g + a, d_add(va, {key(g): 1}, q), "g + a")
    eq(a - g * ring.one, d_add(va, {key(g): scalar(-1, q)}, q), "a - g")
    eq(a * g, d_mul(va, {key(g): 1}, q), "a * g")
    eq(g * a, d_mul({key(g): 1}, va, q), "g * a")
    eq(a * n, d_scale(scalar(n, q), va, q), f"a * {n}")
    eq(n * a, d_scale(scalar(n, q), va, q), f"{n} * a")
    eq(a + n, d_add(va, d_scale(scalar(n, q), e1, q), q), f"a + {n}")
    eq(n + a, d_add(va, d_scale(scalar(n, q), e1, q), q), f"{n} + a")
    eq(a - n, d_add(va, d_scale(scalar(-n, q), e1, q), q), f"a - {n}")
    want = e1
    for p in range(4):
        eq(a**p, want, f"a ** {p}")
        want = d_mul(want, va, q)
    p = rng.randrange(5, 14)
    eq(a**p, functools.reduce(lambda x, y: d_mul(x, y, q), [va] * p), f"a ** {p}")
    eq(a.T, {d_inv(k): v for k, v in va.items()}, "a.T")
    eq(a.copy(), va, "copy")
    eq(ring.zero, {}, "zero")
    eq(ring.one, e1, "one")
    # equality and truth
    check((a == b) == (va == vb), "==")
    check(a == a.copy() and (a - a == ring.zero), "a == a")
    check(bool(a) == bool(va), "bool(a)")
    check((a + b) - b == a and (a * b).T == b.T * a.T and a.T.T == a, "laws with ==")
    check((a * b) * c == a * (b * c) and a * (b + c) == a * b + a * c and (a + b) * c == a * c + b * c, "ring laws with ==")
    # frame: operands are unchanged
    check(vec(a) == va and vec(b) == vb and vec(c) == vc, "an operation changed its operands")
    d = a.copy()
    d += b
    check(vec(a) == va, "changing a copy changed the original")


@contract([R + "lift", R + "regular_lift", R + "T"])
def lifting(name, ring, members, rng, use_lift):
    q = ring.field.order
    f = (lambda x: A(x.lift())) if use_lift else (lambda x: A(x.regular_lift()))
    a, b = rand_el(rng, ring, members), rand_el(rng, ring, members)
    la_, lb = f(a), f(b)
    dim = ring.group.lift_dim if use_lift else ring.group.order
    check(la_.shape == (dim, dim), f"shape {la_.shape}")
    check(isinstance(a.regular_lift(), ring.field), "type of the lift")
    check(np.array_equal(f(a + b), la.add(la_, lb, q)), "lift(a + b)")
    check(np.array_equal(f(a * b), la.matmul(la_, lb, q)), "lift(a * b) is not lift(a) @ lift(b)")
    check(np.array_equal(f(ring.one), np.eye(dim, dtype=int)), "lift(1)")
    check(not f(ring.zero).any(), "lift(0)")
    n = rng.randrange(-3, 5)
    check(np.array_equal(f(n * a), la.mul(scalar(n, q), la_, q)), "lift(n * a)")
    x, g = rng.randrange(q), rng.choice(members)
    raw = A(ring.group.lift(g) if use_lift else ring.group.regular_lift(g))
    check(np.array_equal(f(abstract.RingMember(ring, (x, g))), la.mul(x, raw % q if la.is_prime(q) else raw, q)), "lift(x g)")
    if not use_lift or PERM_LIFT.get(name, True):
        check(np.array_equal(f(a.T), la_.T), "lift(a.T) is not lift(a).T")
        m = f(abstract.RingMember(ring, g))
        check(set(np.unique(m)) <= {0, 1} and (m.sum(0) == 1).all() and (m.sum(1) == 1).all(), "lift(g) is not a permutation matrix")
    # faithful
    if not use_lift:
        check((a == b) == np.array_equal(la_, lb), "the regular lift is not faithful")


@contract([R + "to_vector", R + "from_vector", R + "inverse"])
def conversions(ring, members, rng):
    q = ring.field.order
    a = rand_el(rng, ring, members)
    v = a.to_vector()
    check(isinstance(v, ring.field) and v.shape == (ring.group.order,), "to_vector")
    want = [vec(a).get(key(g), 0) for g in ring.group.generate()]
    check(A(v).tolist() == want, "to_vector: wrong coefficients")
    back = abstract.RingMember.from_vector(ring, v)
    check(back == a and back.ring == ring, "from_vector(to_vector(a)) != a")
    w = np.array([rng.randrange(q) for _ in range(ring.group.order)])
    check(np.array_equal(A(abstract.RingMember.from_vector(ring, ring.field(w)).to_vector()), w), "to_vector(from_vector(v)) != v")
    inv = a.inverse()
    singular = la.rank(A(a.regular_lift()), q) < ring.group.order
    if inv is None:
        check(singular, lambda: f"{vec(a)} is invertible, but no inverse was found")
    else:
        check(a * inv == ring.one and inv * a == ring.one, "the inverse is not an inverse")


def twin_group(group, members, rng):
    order = rng.sample(members, len(members))
    return abstract.Group(*group.generators, generate_func=lambda: iter(order))


@contract([RA + m for m in ("__new__", "build", "regular_lift", "lift", "__invert__", "T", "from_field_array",
                            "to_field_array", "from_field_vector", "to_field_vector", "__array_ufunc__", "__array_function__")])
def arrays(name, ring, members, rng):
    q = ring.field.order
    r, c, s = (rng.randrange(1, 4) for _ in range(3))
    mk = lambda r, c: [[rand_el(rng, ring, members, rng.randrange(0, 3)) for _ in range(c)] for _ in range(r)]
    da, db, dc = mk(r, c), mk(c, s), mk(r, c)
    X, Y, Z = (abstract.RingArray(d) for d in (da, db, dc))
    check(X.ring == ring and X.shape == (r, c) and X.field is ring.field and X.group == ring.group, "ring of an array")
    P = X @ Y
    check(isinstance(P, abstract.RingArray) and P.ring == ring, "type of a product")
    for i in range(r):
        for j in range(s):
            want = {}
            for k in range(c):
                want = d_add(want, d_mul(vec(da[i][k]), vec(db[k][j]), q), q)
            check(vec(P[i, j]) == want, "matrix product")
    S = X + Z
    check(all(vec(S[i, j]) == d_add(vec(da[i][j]), vec(dc[i][j]), q) for i in range(r) for j in range(c)), "sum of arrays")
    T = X.T
    check(T.shape == (c, r) and T.ring == ring, "shape of the transpose")
    for i in range(r):
        for j in range(c):
            check(vec(T[j, i]) == {d_inv(k): v for k, v in vec(da[i][j]).items()}, "transpose")
            check(vec((~X)[i, j]) == {d_inv(k): v for k, v in vec(da[i][j]).items()}, "invert")
    lifts = [("regular_lift", ring.group.order, True)]
    lifts += [("lift", ring.group.lift_dim, PERM_LIFT.get(name, True))]
    for meth, d, perm in lifts:
        L, M = A(getattr(X, meth)()), A(getattr(Y, meth)())
        check(L.shape == (r * d, c * d), f"{meth}: shape {L.shape}")
        for i in range(r):
            for j in range(c):
                check(np.array_equal(L[i * d:(i + 1) * d, j * d:(j + 1) * d], A(getattr(da[i][j], meth)())), f"{meth} is not blockwise")
        check(np.array_equal(A(getattr(P, meth)()), la.matmul(L, M, q)), f"{meth} of a product")
        check(np.array_equal(A(getattr(S, meth)()), la.add(L, A(getattr(Z, meth)()), q)), f"{meth} of a sum")
        if perm:
            check(np.array_equal(A(getattr(T, meth)()), L.T), f"{meth} of the transpose")
    for shape in ((0, c), (r, 0)):
        E = abstract.RingArray(np.zeros(shape, dtype=object), ring=ring)
        check(E.shape == shape and E.T.shape == shape[::-1], "shape of an empty array")
        for meth, d, _ in lifts:
            check(A(getattr(E, meth)()).shape == (shape[0] * d, shape[1] * d), f"{meth}: shape for an empty array")
    F = X.to_field_array()
    check(F.shape == (r, c, ring.group.order) and isinstance(F, ring.field), "to_field_array")
    check(all(A(F[i, j]).tolist() == A(da[i][j].to_vector()).tolist() for i in range(r) for j in range(c)), "to_field_array: entries")
    back = abstract.RingArray.from_field_array(ring, F)
    check(back.shape == X.shape and all(back[i, j] == da[i][j] for i in range(r) for j in range(c)), "from_field_array")
    v = X[0].to_field_vector()
    check(v.shape == (c * ring.group.order,), "to_field_vector")
    vb = abstract.RingArray.from_field_vector(ring, v)
    check(vb.shape == (c,) and all(vb[j] == da[0][j] for j in range(c)), "from_field_vector(to_field_vector)")
    # build from mixed entries
    g = rng.choice(members)
    B = abstract.RingArray.build([list(range(q))], ring)
    check([vec(B[0, j]) for j in range(q)] == [{}] + [{key(ring.group.identity): j} for j in range(1, q)], "build from integers")
    B = abstract.RingArray.build(np.array([[1, 0], [0, 1]]), ring)
    check(vec(B[0, 0]) == {key(ring.group.identity): 1} and not B[0, 1] and B.ring == ring, "build from integers")
    B = abstract.RingArray.build([[da[0][0], 1], [0, da[0][0]]], ring)
    check(B[0, 0] == da[0][0] and B[0, 1] == ring.one and B[1, 0] == ring.zero, "build from mixed entries")
    arr = np.empty((1, 2), dtype=object)
    arr[0, 0], arr[0, 1] = g, ring.one
    B = abstract.RingArray.build(arr, ring)
    check(B[0, 0] == abstract.RingMember(ring, g) and B[0, 1] == ring.one, "build from group members")
    check(all(X[i, j] == da[i][j] for i in range(r) for j in range(c)), "an operation changed its operands")
    # an equal ring that was built separately, and orders the members of the group in another way
    if ring.group.order <= 24:
        twin = abstract.GroupRing(twin_group(ring.group, members, rng), q)
        check(twin == ring and hash(twin) == hash(ring), "equal rings")
        re = lambda rows: abstract.RingArray([[abstract.RingMember(twin, *[(v, g) for v, g in e]) for e in row] for row in rows], twin)
        for got, want in [(X + re(dc), S), (re(da) + Z, S), (X @ re(db), P), (re(da) @ Y, P), (np.kron(X, re(db)), np.kron(X, Y))]:
            check(got.shape == want.shape and all(vec(a) == vec(b) for a, b in zip(got.ravel(), want.ravel())), "arrays over equal rings")
        for Z2 in (re(da), X):
            check(np.array_equal(A(Z2.regular_lift()), np.block([[A(Z2[i, j].regular_lift()) for j in range(c)] for i in range(r)])), "regular lift")


def rejected():
    r2, r3 = abstract.GroupRing(abstract.CyclicGroup(3), 2), abstract.GroupRing(abstract.CyclicGroup(3), 3)
    other = abstract.GroupRing(abstract.CyclicGroup(2), 2)
    a, b, c = r2.one, r3.one, other.one
    must_raise((ValueError, TypeError), abstract.RingArray, [[a, b]])
    must_raise((ValueError, TypeError), abstract.RingArray, [[a, c]])
    must_raise((ValueError, TypeError), abstract.RingArray, [[a, 1]])
    must_raise((ValueError, TypeError), abstract.RingArray, [[a]], r3)
    x, y = abstract.RingArray([[a]]), abstract.RingArray([[b]])
    must_raise((ValueError, TypeError), lambda: x @ y)
    must_raise((ValueError, TypeError), lambda: x + y)
    must_raise((ValueError, TypeError), lambda: np.vstack([x, y]) if False else np.kron(x, y))
    check(a != b and a != c and r2 != r3 and r2 != other, "different rings compare as equal")
    for p, k in [(2, 4), (2, 8), (3, 9), (4, 8)]:  # one field contains the other
        rp, rk = abstract.GroupRing(abstract.CyclicGroup(3), p), abstract.GroupRing(abstract.CyclicGroup(3), k)
        check(rp != rk and rp.one != rk.one, "rings over different fields compare as equal")
        must_raise((ValueError, TypeError), abstract.RingArray, [[rp.one, rk.one]])
        must_raise((ValueError, TypeError), lambda: abstract.RingArray([[rp.one]]) @ abstract.RingArray([[rk.one]]))


@contract(["qldpc.abstract.TrivialGroup.to_ring_array"])
def trivial_arrays(rng, q, plain):
    M = gen.matrix(rng, rng.randrange(1, 4), rng.randrange(1, 4), 2)  # documented for matrices of 0s and 1s
    X = abstract.TrivialGroup.to_ring_array(M.copy() if plain else gen.gf(M, q))
    check(X.shape == M.shape and X.field.order == q and X.group == abstract.TrivialGroup(), "ring of an array over the trivial group")
    for meth in ("lift", "regular_lift"):
        L = getattr(X, meth)()
        check(np.array_equal(A(L), M) and type(L).order == q, f"{meth} of an array over the trivial group")
    check(np.array_equal(A(X.to_field_array()).reshape(M.shape), M), "to_field_array over the trivial group")


def rings(ctx, per, fn, names=None, **kw):
    for name, group in groups().items():
        if group.order > 16 or (names and name not in names):
            continue
        members = list(group.generate())
        for q in (2, 3, 4, 5):
            if ctx.left() < 0:
                return
            ring = abstract.GroupRing(group, q)
            for i in range(per):
                rng = ctx.rng(f"{name}-{q}-{i}")
                args = (ring, members, rng)
                if kw.get("named"):
                    args = (name, *args)
                ctx.case(f"{name}-GF({q})-{i}", fn, *args, *kw.get("extra", ()))


def elements(ctx):
    rings(ctx, ctx.n(6, 100), algebra)


def lifts(ctx):
    rings(ctx, ctx.n(3, 40), lifting, named=True, extra=(False,))


def own_lifts(ctx):
    for name, group in groups().items():
        if group.order > 16:
            continue
        members = list(group.generate())
        for q in ((3,) if name == "Q8" else (2,) if name == "SL22" else (2, 3, 4, 5)):
            for i in range(ctx.n(3, 40)):
                if ctx.left() < 0:
                    return
                rng = ctx.rng(f"{name}-{q}-{i}")
                ctx.case(f"{name}-GF({q})-{i}", lifting, name, abstract.GroupRing(group, q), members, rng, True)


def vectors(ctx):
    rings(ctx, ctx.n(4, 60), conversions)


def ring_arrays(ctx):
    def run(name, ring, members, rng):
        q = ring.field.order
        if name in ("Q8", "SL22") and q != {"Q8": 3, "SL22": 2}[name]:
            return
        arrays(name, ring, members, rng)
    rings(ctx, ctx.n(2, 30), run, named=True)
    ctx.case("rejected", rejected)
    for q in (2, 3, 4, 5, 7, 8, 9):
        for i in range(ctx.n(2, 20)):
            ctx.case(f"trivial-GF({q})-{i}", trivial_arrays, ctx.rng(f"t{q}{i}"), q, q == 2 and i % 2)


def gap_field(q, m):
    """How GAP prints the m-th power of its generator Z(q): with the generator of the smallest field that contains it."""
    p, e = next((p, e) for p in (2, 3, 5, 7, 11, 13) for e in range(1, 9) if p**e == q)
    for k in range(1, e + 1):
        if e % k == 0 and m % ((q - 1) // (p**k - 1)) == 0:
            m //= (q - 1) // (p**k - 1)
            return f"Z({p})" + ("" if m == 1 else f"^{m}") if k == 1 else f"Z({p}^{k})" + ("" if m == 1 else f"^{m}")


def gap_cycles(member):
    return "".join("(" + ",".join(str(i + 1) for i in c) + ")" for c in member.cyclic_form) or "()"


def idempotents(ctx):
    """The primitive central idempotents that GAP would print for cyclic groups whose characters have their values in the field,
    read from that text by the code."""
    from qldpc import external
    for n, q in [(2, 3), (3, 4), (2, 5), (4, 5), (3, 7), (6, 7), (2, 9), (4, 9), (8, 9), (3, 16), (5, 16), (15, 16), (2, 25), (3, 25), (4, 25), (6, 25), (3, 64), (7, 64), (2, 27)]:
        def run(n=n, q=q):
            group = abstract.CyclicGroup(n)
            ring = abstract.GroupRing(group, q)
            gen_ = group.generators[0]
            powers = [group.identity]
            while len(powers) < n:
                powers.append(powers[-1] * gen_)
            alpha = ring.field.primitive_element
            log = {int(alpha**m): m for m in range(q - 1)}
            w = (q - 1) // n
            inv_n = ring.field(n % ring.field.characteristic) ** -1
            want, text = [], []
            for k in range(n):
                coeffs = [inv_n * alpha ** ((-w * j * k) % (q - 1)) for j in range(n)]
                want.append(tuple(int(c) for c in coeffs))
                text.append("+".join(f"({gap_field(q, log[int(c)])})*{gap_cycles(g)}" for c, g in zip(coeffs, powers)))
            old = external.gap.is_installed, external.gap.require_package, external.gap.get_output
            external.gap.is_installed, external.gap.require_package = lambda: True, lambda name: None
            external.gap.get_output = lambda *commands: "[ " + ", ".join(text) + " ]"
            try:
                got = ring.get_primitive_central_idempotents()
            finally:
                external.gap.is_installed, external.gap.require_package, external.gap.get_output = old
            check(len(got) == n, "number of idempotents")
            zero = ring.one - ring.one
            total = zero
            for a in got:
                total = total + a
                check(all(a * b == (a if a is b else zero) for b in got), "idempotents are not orthogonal idempotents")
            check(total == ring.one, "idempotents do not sum to one")
            found = {tuple(vec(a).get(key(g), 0) for g in powers) for a in got}
            check(found == set(want), "the idempotents are not those that GAP printed")
        ctx.case(f"C{n}-GF({q})", run)


GROUPS = {"idempotents": idempotents, "elements": elements, "lifts": lifts, "own_lifts": own_lifts, "vectors": vectors, "arrays": ring_arrays}
GROUPS.update({g.__name__: g for g in proofs('algebra', 'elements', 'laws') + proofs('modules', 'arrays') + proofs('reduction', 'inverses')})
