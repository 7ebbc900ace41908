"""C13: chain complexes compose to zero; product codes agree across their views."""
import itertools

import networkx as nx
import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise
from vf.proofs import groups as proofs
from qldpc import abstract, codes, objects
from qldpc.objects import ChainComplex, Node

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
CC = "qldpc.objects.ChainComplex."
Q = "qldpc.codes.quantum."
A = spec.A


def random_complex(rng, q, links, dims=None):
    """Boundary operators d_1, ..., d_links over GF(q), with d_i d_{i+1} = 0."""
    n = [rng.randrange(1, 5) for _ in range(links + 1)]
    ops = [gen.matrix(rng, n[0], n[1], q)]
    for i in range(1, links):
        N = la.nullspace(ops[-1], q)  # columns of the next operator lie in the kernel
        c = gen.matrix(rng, n[i + 1], len(N), q, 0.6)
        ops.append((la.matmul(c, N, q).reshape(n[i + 1], n[i]) if len(N) else np.zeros((n[i + 1], n[i]), dtype=int)).T)
    return ops


def homology(ops, q):
    """dim ker d_i - rank d_{i+1} for every degree."""
    dims = [ops[0].shape[0]] + [op.shape[1] for op in ops]
    ranks = [0] + [la.rank(op, q) for op in ops] + [0]
    return [d - ranks[i] - ranks[i + 1] for i, d in enumerate(dims)]


@contract([CC + "__init__", CC + "op", CC + "dim", CC + "T", CC + "_validate_ops"])
def complex_laws(ops, q, as_field):
    args = [gen.gf(op, q) if as_field else op.copy() for op in ops]
    chain = ChainComplex(*args, **({} if as_field else {"field": q}))
    check(chain.field.order == q and chain.group is None and chain.num_links == len(ops), "field or number of links")
    verify(chain, [np.array(op) for op in ops], q)
    dual = chain.T
    verify(dual, [op.T for op in ops[::-1]], q)
    verify(dual.T, ops, q)
    check(all(np.array_equal(A(a), op) for a, op in zip(args, ops)), "the operators were changed")
    return chain


def verify(chain, ops, q):
    check(chain.num_links == len(ops), "number of links")
    for i, op in enumerate(ops):
        check(np.array_equal(A(chain.op(i + 1)), op), f"boundary operator of degree {i + 1}")
        check(np.array_equal(A(chain.ops[i]), op), "ops")
        check(chain.dim(i + 1) == op.shape[1], "dim")
    check(chain.dim(0) == ops[0].shape[0], "dim(0)")
    check(chain.op(0).shape == (0, ops[0].shape[0]), "op(0)")
    check(chain.op(len(ops) + 1).shape == (ops[-1].shape[1], 0), "last op")
    for i in range(len(ops)):
        prod = la.matmul(A(chain.op(i)), A(chain.op(i + 1)), q) if i else np.zeros(0)
        check(not prod.any(), "boundary operators do not compose to zero")


@contract([CC + "tensor_product"])
def tensor(rng, q, opsa, opsb):
    ca, cb = (ChainComplex(*[gen.gf(op, q) for op in ops]) for ops in (opsa, opsb))
    prod = ChainComplex.tensor_product(ca, cb)
    check(prod.field.order == q and prod.num_links == len(opsa) + len(opsb), "links of a tensor product")
    ops = [A(op) for op in prod.ops]
    dims_a = [opsa[0].shape[0]] + [op.shape[1] for op in opsa]
    dims_b = [opsb[0].shape[0]] + [op.shape[1] for op in opsb]
    for k in range(prod.num_links + 1):
        want = sum(dims_a[i] * dims_b[k - i] for i in range(len(dims_a)) if 0 <= k - i < len(dims_b))
        check(prod.dim(k) == want, lambda: f"dimension of degree {k}: {prod.dim(k)} instead of {want}")
    for x, y in zip(ops, ops[1:]):
        check(x.shape[1] == y.shape[0] and not la.matmul(x, y, q).any(), "tensor product does not compose to zero")
    ha, hb = homology(opsa, q), homology(opsb, q)
    hp = homology(ops, q)
    want = [sum(ha[i] * hb[k - i] for i in range(len(ha)) if 0 <= k - i < len(hb)) for k in range(len(hp))]
    check(hp == want, lambda: f"homology {hp} violates the Kunneth formula ({want})")
    ChainComplex(*prod.ops)  # passes validation
    # the definition, by sectors: columns (i, j), rows (i - 1, j) and (i, j - 1), up to a permutation of sectors
    for k in range(1, prod.num_links + 1):
        cols = [(i, k - i) for i in range(len(dims_a) - 1, -1, -1) if 0 <= k - i < len(dims_b)]
        rows = [(i, k - 1 - i) for i in range(len(dims_a) - 1, -1, -1) if 0 <= k - 1 - i < len(dims_b)]
        blocks = []
        for (ri, rj) in rows:
            line = []
            for (ci, cj) in cols:
                B = np.zeros((dims_a[ri] * dims_b[rj], dims_a[ci] * dims_b[cj]), dtype=int)
                if (ri, rj) == (ci - 1, cj):
                    B = la.kron(opsa[ci - 1], np.eye(dims_b[cj], dtype=int), q)
                if (ri, rj) == (ci, cj - 1):
                    B = la.kron(np.eye(dims_a[ci], dtype=int), opsb[cj - 1], q)
                    B = la.neg(B, q) if ci % 2 else B
                line.append(B)
            blocks.append(line)
        want = np.block(blocks)
        check(same_up_to_relabeling(want, ops[k - 1], q), f"boundary operator of degree {k} of a tensor product")


def bigraph(M, split=None):
    g = nx.Graph()
    for i in range(M.shape[0]):
        g.add_node(("r", i), kind="r")
    for j in range(M.shape[1]):
        g.add_node(("c", j), kind="c")
    for i, j in zip(*np.nonzero(M)):
        g.add_edge(("r", i), ("c", j), val=int(M[i, j]))
    return g


def same_up_to_relabeling(M, N, q):
    M, N = np.array(M), np.array(N)
    if M.shape != N.shape:
        return False
    if np.array_equal(M, N):
        return True
    if sorted(M.sum(0)) != sorted(N.sum(0)) and q == 2:
        return False
    return nx.is_isomorphic(bigraph(M), bigraph(N), node_match=lambda a, b: a["kind"] == b["kind"],
                            edge_match=lambda a, b: a["val"] == b["val"])


def same_code(hx, hz, gx, gz, q):
    """The same CSS code up to relabeling of qudits and checks."""
    if hx.shape != gx.shape or hz.shape != gz.shape:
        return False
    if np.array_equal(hx, gx) and np.array_equal(hz, gz):
        return True

    def graph(x, z):
        g = nx.Graph()
        for j in range(x.shape[1]):
            g.add_node(("q", j), kind="q")
        for t, M in (("x", x), ("z", z)):
            for i in range(len(M)):
                g.add_node((t, i), kind=t)
            for i, j in zip(*np.nonzero(M)):
                g.add_edge((t, i), ("q", j), val=int(M[i, j]))
        return g

    return nx.is_isomorphic(graph(hx, hz), graph(gx, gz), node_match=lambda a, b: a["kind"] == b["kind"],
                            edge_match=lambda a, b: a["val"] == b["val"])


def hgp_reference(a, b, q):
    m1, n1 = a.shape
    m2, n2 = b.shape
    e = lambda k: np.eye(k, dtype=int)
    hx = np.hstack([la.kron(a, e(n2), q), la.kron(e(m1), b.T, q)])
    hz = np.hstack([la.neg(la.kron(e(n1), b, q), q), la.kron(a.T, e(m2), q)])
    return hx, hz


@contract([Q + "HGPCode.__init__", Q + "HGPCode.get_matrix_product", Q + "HGPCode.get_graph_product", CC + "tensor_product",
           Q + "HGPCode.get_product_node_map"])
def hgp_views(a, b, q):
    ca, cb = codes.ClassicalCode(gen.gf(a, q)), codes.ClassicalCode(gen.gf(b, q))
    code = codes.HGPCode(ca, cb)
    hx, hz = hgp_reference(a, b, q)
    gx, gz = A(code.matrix_x), A(code.matrix_z)
    check(same_code(hx, hz, gx, gz, q), "hypergraph product of matrices")
    mx, mz = (A(m) for m in codes.HGPCode.get_matrix_product(gen.gf(a, q), gen.gf(b, q)))
    check(same_code(hx, hz, mx, mz, q), "get_matrix_product")
    # Tanner graphs
    graph = codes.HGPCode.get_graph_product(ca.graph, cb.graph)
    M = A(codes.QuditCode.graph_to_matrix(graph))
    n = len(code)
    check(M.shape == (len(hx) + len(hz), 2 * n), lambda: f"shape {M.shape} of the product of Tanner graphs")
    isx = ~M[:, n:].any(axis=1)
    if not np.array_equal(M, la.block_diag(hx, hz)):
        zero = ~M.any(axis=1)
        order = [i for i in range(len(M)) if not zero[i]]
        X = M[[i for i in order if isx[i]], :n]
        Z = M[[i for i in order if not isx[i]], n:]
        check(same_code(hx[hx.any(axis=1)], hz[hz.any(axis=1)], X, Z, q), "hypergraph product of Tanner graphs")
    # chain complexes
    chain = ChainComplex.tensor_product(gen.gf(a, q), gen.gf(b, q).T)
    check(same_code(hx, hz, A(chain.op(1)), A(chain.op(2)).T, q), "hypergraph product of chain complexes")
    # counting
    ra, rb = la.rank(a, q), la.rank(b, q)
    want = (a.shape[1] - ra) * (b.shape[1] - rb) + (a.shape[0] - ra) * (b.shape[0] - rb)
    check(code.dimension == want, lambda: f"dimension {code.dimension} instead of {want}")
    check(len(code) == a.shape[1] * b.shape[1] + a.shape[0] * b.shape[0], "length")
    check(A(code.sector_size).tolist() == np.outer(a.shape[::-1], b.shape[::-1]).tolist(), lambda: f"sector sizes {code.sector_size}")
    spec.commuting(code)
    spec.logical_ops(code)


@contract([Q + "SHPCode.__init__", Q + "SHPCode.get_matrix_product", Q + "SHPCode.get_canonical_logical_ops"])
def shp(a, b, q, set_logicals):
    code = codes.SHPCode(codes.ClassicalCode(gen.gf(a, q)), codes.ClassicalCode(gen.gf(b, q)), set_logicals=set_logicals)
    e = lambda k: np.eye(k, dtype=int)
    hx, hz = la.kron(a, e(b.shape[1]), q), la.kron(e(a.shape[1]), b, q)
    check(same_code(hx, hz, A(code.matrix_x), A(code.matrix_z), q), "checks of a subsystem hypergraph product")
    want = (a.shape[1] - la.rank(a, q)) * (b.shape[1] - la.rank(b, q))
    check(code.dimension == want and len(code) == a.shape[1] * b.shape[1], lambda: f"dimension {code.dimension} instead of {want}")
    check(code.is_subsystem_code, "type")
    spec.logical_ops(code)
    spec.stabilizer_ops(code)


def products(ctx):
    for i in range(ctx.n(60, 900)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5])
        a, b = (gen.matrix(rng, rng.randrange(1, 4), rng.randrange(1, 4), q, rng.choice([0.4, 0.7])) for _ in range(2))
        if rng.random() < 0.3:
            b = a
        ctx.case(f"hgp-{i}", hgp_views, a, b, q, limit=30)
        ctx.case(f"shp-{i}", shp, a, b, q, rng.random() < 0.5)
    for n, m in [(3, 4), (5, 2)]:
        H, K = A(codes.RepetitionCode(n).matrix), A(codes.RingCode(m).matrix)
        ctx.case(f"hgp-rep{n}-ring{m}", hgp_views, H, K, 2)
    ctx.case("hgp-hamming", hgp_views, A(codes.HammingCode(3).matrix), A(codes.HammingCode(2).matrix), 2)
    ctx.case("shp-hamming", shp, A(codes.HammingCode(3).matrix), A(codes.RepetitionCode(3).matrix), 2, True)


def complexes(ctx):
    for i in range(ctx.n(150, 3000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 7])

        def run():
            ops = random_complex(rng, q, rng.randrange(1, 4))
            complex_laws(ops, q, rng.random() < 0.7)
            if len(ops) > 1:  # break it
                j = rng.randrange(len(ops) - 1)
                bad = [op.copy() for op in ops]
                col = [c for c in range(ops[j].shape[1]) if ops[j][:, c].any()]
                if col:
                    bad[j + 1][rng.choice(col), 0] = la.add(bad[j + 1][col[0], 0], 1, q) if False else (bad[j + 1][rng.choice(col), 0] + 1) % q
                    if la.matmul(bad[j], bad[j + 1], q).any():
                        must_raise(ValueError, ChainComplex, *[gen.gf(op, q) for op in bad])
                wrong = [op.copy() for op in ops]
                wrong[j + 1] = np.vstack([wrong[j + 1], np.zeros((1, wrong[j + 1].shape[1]), dtype=int)])
                must_raise(ValueError, ChainComplex, *[gen.gf(op, q) for op in wrong])

        ctx.case(f"complex-{i}", run)

    def mixed():
        z = abstract.RingArray.build([[0]], abstract.CyclicGroup(2))
        must_raise(ValueError, ChainComplex, z, gen.gf([[0]], 2))
        must_raise(ValueError, ChainComplex, gen.gf([[0]], 2), gen.gf([[0]], 3))
        must_raise(ValueError, ChainComplex, gen.gf([[0]], 2), field=3)
        must_raise(ValueError, ChainComplex, z, abstract.RingArray.build([[0]], abstract.CyclicGroup(3)))
        must_raise(ValueError, ChainComplex.tensor_product, gen.gf([[1]], 2), gen.gf([[1]], 3))
        must_raise(ValueError, ChainComplex.tensor_product, gen.gf([[1]], 2), z)
        must_raise(ValueError, ChainComplex.tensor_product, z, gen.gf([[1]], 2))
        w = abstract.RingArray.build([[1]], abstract.CyclicGroup(3))
        v = abstract.RingArray.build([[1]], abstract.GroupRing(abstract.CyclicGroup(2), 3))
        zero = abstract.RingArray.build([[0]], abstract.CyclicGroup(2))
        for a, b in itertools.permutations([z, w, v], 2):
            must_raise(ValueError, ChainComplex, a, b)
            for f, g in itertools.product([lambda x: x, ChainComplex], repeat=2):
                must_raise(ValueError, ChainComplex.tensor_product, f(a), f(b))
        must_raise(ValueError, ChainComplex.tensor_product, ChainComplex(z, zero), w)
        must_raise(ValueError, ChainComplex.tensor_product, w, ChainComplex(z, zero))
        must_raise(ValueError, ChainComplex.tensor_product, ChainComplex(gen.gf([[1]], 2), gen.gf([[0]], 2)), gen.gf([[1]], 3))

    ctx.case("inconsistent", mixed)


def tensors(ctx):
    for i in range(ctx.n(80, 1500)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 3, 4, 5])

        def run():
            la_, lb = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)])
            tensor(rng, q, random_complex(rng, q, la_), random_complex(rng, q, lb))

        ctx.case(f"tensor-{i}", run)


def protograph(rng, ring, r, c):
    members, q = list(ring.group.generate()), ring.field.order
    M = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            t = 0 if rng.random() < 0.2 else rng.randrange(1, 3)
            M[i, j] = abstract.RingMember(ring, *[(rng.randrange(1, q), rng.choice(members)) for _ in range(t)])
    return abstract.RingArray(M, ring)


@contract([CC + "__init__", CC + "T", CC + "tensor_product"])
def ring_complex(rng, ring):
    group, q = ring.group, ring.field.order
    X, Y = (protograph(rng, ring, rng.randrange(1, 3), rng.randrange(1, 3)) for _ in range(2))
    one = ChainComplex(X)
    check(one.group == group and one.field is ring.field, "group of a complex")
    prod = ChainComplex.tensor_product(X, Y)
    prods = [prod, prod.T]
    if X.size * Y.size <= 4:
        prods.append(ChainComplex.tensor_product(prod, one))
    for p in prods:
        for a, b in zip(p.ops, p.ops[1:]):
            check(a.shape[1] == b.shape[0], "shapes")
            la_, lb = lifted(a, ring), lifted(b, ring)
            check(not la.matmul(la_, lb, q).any(), "boundary operators over a group algebra do not compose to zero")
    # lifting the product is the product code of the lifted protographs
    code = codes.LPCode(X, Y.T) if X.size and Y.size else None
    if code is not None:
        hx, hz = lifted(prod.op(1), ring), lifted(prod.op(2), ring).T
        check(same_code(A(code.matrix_x), A(code.matrix_z), hx, hz, q), "the lifted product is not the lifted tensor product")


def lifted(M, ring):
    """Entrywise lift of a matrix of ring members (zeros of the field stand for the zero element)."""
    d = ring.group.lift_dim
    out = np.zeros((M.shape[0] * d, M.shape[1] * d), dtype=int)
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            e = np.asarray(M, dtype=object)[i, j]
            if isinstance(e, abstract.RingMember):
                out[i * d:(i + 1) * d, j * d:(j + 1) * d] = A(e.lift())
            else:
                check(int(e) == 0, "entry that is not a ring member")
    return out


@contract([Q + "LPCode.__init__", Q + "SLPCode.__init__", Q + "HGPCode.get_matrix_product"])
def lifted_products(rng, ring):
    group, q = ring.group, ring.field.order
    d = group.lift_dim
    X, Y = (protograph(rng, ring, rng.randrange(1, 3), rng.randrange(1, 3)) for _ in range(2))
    if rng.random() < 0.2:
        Y = X
    (m1, n1), (m2, n2) = X.shape, Y.shape
    L = lambda e: A(e.lift())
    zero = np.zeros((d, d), dtype=int)

    def block(rows, cols, f):
        return np.block([[f(r, c) for c in cols] for r in rows]) if rows and cols else np.zeros((len(rows) * d, len(cols) * d), dtype=int)

    qa = list(itertools.product(range(n1), range(n2)))
    qb = list(itertools.product(range(m1), range(m2)))
    xs, zs = list(itertools.product(range(m1), range(n2))), list(itertools.product(range(n1), range(m2)))
    T = lambda e: A(e.T.lift())
    hx = np.hstack([block(xs, qa, lambda r, c: L(X[r[0], c[0]]) if r[1] == c[1] else zero),
                    block(xs, qb, lambda r, c: T(Y[c[1], r[1]]) if r[0] == c[0] else zero)])
    hz = np.hstack([block(zs, qa, lambda r, c: la.neg(L(Y[r[1], c[1]]), q) if r[0] == c[0] else zero),
                    block(zs, qb, lambda r, c: T(X[c[0], r[0]]) if r[1] == c[1] else zero)])
    code = codes.LPCode(X, Y)
    check(same_code(hx, hz, A(code.matrix_x), A(code.matrix_z), q), "lifted product of protographs")
    check(A(code.sector_size).tolist() == (d * np.outer([n1, m1], [n2, m2])).tolist(), lambda: f"sector sizes {code.sector_size}")
    spec.commuting(code)
    sx = block(xs, qa, lambda r, c: L(X[r[0], c[0]]) if r[1] == c[1] else zero)
    sz = block(zs, qa, lambda r, c: L(Y[r[1], c[1]]) if r[0] == c[0] else zero)
    scode = codes.SLPCode(X, Y)
    check(same_code(sx, sz, A(scode.matrix_x), A(scode.matrix_z), q), "subsystem lifted product of protographs")
    if group.order == 1 or d == 1:
        plain = codes.HGPCode(gen.gf(lifted(X, ring), q), gen.gf(lifted(Y, ring), q))
        check(same_code(A(plain.matrix_x), A(plain.matrix_z), A(code.matrix_x), A(code.matrix_z), q), "product over a trivial group")


@contract([CC + "__init__", CC + "T", CC + "_validate_ops"])
def any_group_complex(rng, ring):
    """d_1 = A (1 - h), d_2 = (1 + h + h^2 + ...) B over any group algebra, also of a non-Abelian group"""
    group, q = ring.group, ring.field.order
    members = list(group.generate())
    h = rng.choice([g for g in members if g != group.identity] or members)
    powers = [group.identity]
    while powers[-1] * h != group.identity:
        powers.append(powers[-1] * h)
    one = abstract.RingMember(ring, (1, group.identity), (int(-ring.field(1)), h))
    total = abstract.RingMember(ring, *[(1, g) for g in powers])
    m, k, n = (rng.randrange(1, 3) for _ in range(3))
    first = protograph(rng, ring, m, k) * one
    second = abstract.RingArray(np.array([[total * e for e in row] for row in protograph(rng, ring, k, n)], dtype=object).reshape(k, n), ring)
    chain = ChainComplex(first, second)
    check(chain.group == group and chain.field is ring.field, "group of a complex")
    fa, fb = lifted(first, ring), lifted(second, ring)
    check(not la.matmul(fa, fb, q).any(), "generator of the check")
    for got, want in zip(chain.ops, (fa, fb)):
        check(np.array_equal(lifted(got, ring), want), "boundary operator")
    dual = chain.T
    check(dual.group == group and dual.field is ring.field and dual.num_links == 2, "group of a dual complex")
    da, db = (lifted(op, ring) for op in dual.ops)
    check(np.array_equal(da, fb.T) and np.array_equal(db, fa.T), "the dual operators are not the transposes in reverse order")
    check(not la.matmul(da, db, q).any(), "the dual operators do not compose to zero")
    ChainComplex(*dual.ops)  # passes validation
    for got, want in zip(dual.T.ops, (fa, fb)):
        check(np.array_equal(lifted(got, ring), want), "the dual of the dual")
    other = protograph(rng, ring, second.shape[0], 1)
    if la.matmul(fa, lifted(other, ring), q).any():
        must_raise(ValueError, ChainComplex, first, other)


def any_groups(ctx):
    groups = {"S3": abstract.SymmetricGroup(3), "D4": abstract.DihedralGroup(4), "Q8": abstract.QuaternionGroup(),
              "A4": abstract.AlternatingGroup(4), "C4": abstract.CyclicGroup(4)}
    for name, group in groups.items():
        for q in (2, 3, 4):
            if name == "Q8" and q != 3:
                continue
            ring = abstract.GroupRing(group, q)
            for i in range(ctx.n(4, 25)):
                if ctx.left() < 0:
                    return
                ctx.case(f"any-{name}-GF({q})-{i}", any_group_complex, ctx.rng(f"{name}{q}{i}"), ring)


def group_algebras(ctx):
    groups = dict(families.abelian_groups())
    groups["trivial"] = abstract.TrivialGroup()
    groups["abelian23"] = abstract.AbelianGroup(2, 3)
    groups["abelian22sum"] = abstract.AbelianGroup(2, 2, direct_sum=True)
    for name, group in groups.items():
        for q in (2, 3, 4):
            ring = abstract.GroupRing(group, q)
            for i in range(ctx.n(2, 25)):
                if ctx.left() < 0:
                    return
                rng = ctx.rng(f"{name}{q}{i}")
                ctx.case(f"ring-{name}-GF({q})-{i}", ring_complex, rng, ring)
                ctx.case(f"lifted-{name}-GF({q})-{i}", lifted_products, rng, ring, limit=30)


GROUPS = {"complexes": complexes, "tensors": tensors, "products": products, "group_algebras": group_algebras, "any_groups": any_groups}
GROUPS.update({f.__name__: f for f in proofs("complexes", "complexes")})
