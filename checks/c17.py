"""C17: Cayley complexes and quantum Tanner codes are well-formed and reload."""
import itertools
import os
import tempfile

import networkx as nx
import numpy as np

from vf import env, families, gen, la, spec  # noqa: F401
from vf.harness import Skip, check, contract, must_raise
from vf.proofs import groups as proofs
from qldpc import abstract, codes, objects

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
A = spec.A


def key(g):
    return tuple(g.array_form)


def mul(a, b):
    """Product of permutations as sympy composes them: (a*b)(i) = b(a(i))."""
    return tuple(b[i] for i in a)


def inv(a):
    out = [0] * len(a)
    for i, x in enumerate(a):
        out[x] = i
    return tuple(out)


def cover(subset, cover_id, bipartite):
    """(a) -> (a, 1) or, in the quadripartite case, (a, 1, 0) and (b, 0, 1), as permutations of extra points."""
    out = set()
    for a in subset:
        n = len(a)
        if bipartite:
            out.add(a + (n + 1, n))
        elif cover_id == 0:
            out.add(a + (n + 1, n, n + 2, n + 3))
        else:
            out.add(a + (n, n + 1, n + 3, n + 2))
    return out


def component(sa, sb):
    first = next(iter(sa))
    e = tuple(range(len(first)))
    seen, todo = {e}, [e]
    while todo:
        g = todo.pop()
        for h in [mul(a, g) for a in sa] + [mul(g, b) for b in sb]:
            if h not in seen:
                seen.add(h)
                todo.append(h)
    return seen


def closure(gens):
    e = tuple(range(len(next(iter(gens)))))
    seen, todo = {e}, [e]
    while todo:
        g = todo.pop()
        for a in gens:
            h = mul(g, a)
            if h not in seen:
                seen.add(h)
                todo.append(h)
    return seen


def tnc(sa, sb):
    return all(mul(a, g) != mul(g, b) for g in closure(list(sa) + list(sb)) for a in sa for b in sb)


@contract(["qldpc.objects.CayleyComplex." + m for m in ("__init__", "graph", "cover_subset_a", "cover_subset_b", "build_cayley_graph",
                                                         "satisfies_total_no_conjugacy")])
def cayley(sa, sb, bipartite, as_list):
    ka, kb = {key(a) for a in sa}, {key(b) for b in sb}
    given = list(sa) if as_list else set(sa), list(sb) if as_list else set(sb)
    check(objects.CayleyComplex.satisfies_total_no_conjugacy(*given) == tnc(ka, kb), "satisfies_total_no_conjugacy")
    if bipartite and not tnc(ka, kb):
        must_raise(ValueError, objects.CayleyComplex, *given, bipartite=True)
        return None
    cay = objects.CayleyComplex(*given, bipartite=bipartite)
    check({key(a) for a in cay.subset_a} == ka and {key(b) for b in cay.subset_b} == kb and cay.bipartite == bipartite, "generating data")
    ca, cb = cover(ka, 0, bipartite), cover(kb, 1, bipartite)
    check({key(a) for a in cay.cover_subset_a} == ca and {key(b) for b in cay.cover_subset_b} == cb, "members of the cover")
    check(tnc(ca, cb), "the cover does not satisfy Total No Conjugacy")
    V = component(ca, cb)
    graph = cay.graph
    check({key(g) for g in graph.nodes} == V and graph.number_of_nodes() == len(V), "vertices are not the component of the identity")
    edges = {}
    for g in V:
        for a in ca:
            edges[frozenset([g, mul(a, g)])] = "L"
        for b in cb:
            edges[frozenset([g, mul(g, b)])] = "R"
    got = {frozenset([key(g), key(h)]): t for g, h, t in graph.edges(data="type")}
    check(set(got) == set(edges), "edges are not (g, ag) and (g, gb)")
    check(got == edges, "types of edges")
    check(len(edges) == len(V) * (len(ca) + len(cb)) // 2, "number of edges")
    check(nx.is_bipartite(graph), "the complex is not bipartite")
    if not bipartite:
        check(all((g[-4] - (len(g) - 4), g[-2] - (len(g) - 2)) != (h[-4] - (len(h) - 4), h[-2] - (len(h) - 2))
                  for g, h in map(tuple, edges)), "the complex is not quadripartite")
    return cay


@contract(["qldpc.codes.quantum.QTCode.get_subgraphs"])
def faces(cay, bipartite):
    ka, kb = {key(a) for a in cay.subset_a}, {key(b) for b in cay.subset_b}
    ca, cb = cover(ka, 0, bipartite), cover(kb, 1, bipartite)
    V = component(ca, cb)
    e = tuple(range(len(next(iter(ca)))))
    V0, todo = {e}, [e]
    while todo:
        g = todo.pop()
        for a, b in itertools.product(ca, cb):
            h = mul(mul(a, g), b)
            if h not in V0:
                V0.add(h)
                todo.append(h)
    F = {}
    for g in V0:
        for a, b in itertools.product(ca, cb):
            f = frozenset([g, mul(a, g), mul(g, b), mul(mul(a, g), b)])
            check(len(f) == 4, "degenerate face")
            F.setdefault(f, set()).add(g)
    check(len(F) == len(V0) * len(ca) * len(cb) // 2, "number of faces")
    gx, gz = codes.QTCode.get_subgraphs(cay)
    for name, graph, sources in (("x", gx, V0), ("z", gz, {mul(a, g) for a in ca for g in V0} | {mul(g, b) for b in cb for g in V0})):
        sinks = [n for n in graph if graph.out_degree(n) == 0]
        src = [n for n in graph if graph.in_degree(n) == 0]
        check(all(isinstance(s, frozenset) for s in sinks), "bits are not faces")
        check({frozenset(map(key, s)) for s in sinks} == set(F), f"faces of subgraph_{name}")
        check({key(s) for s in src} == sources, f"sources of subgraph_{name}")
        for s in src:
            out = {frozenset(map(key, f)): graph[s][f]["sort"] for f in graph[s]}
            check(len(out) == len(ca) * len(cb), f"a vertex of subgraph_{name} lies on {len(out)} faces")
            for f, (a, b) in out.items():
                g, a, b = key(s), key(a), key(b)
                check(a in ca and b in cb, "labels of faces")
                check(f == frozenset([g, mul(a, g), mul(g, b), mul(mul(a, g), b)]), lambda: f"label of a face of subgraph_{name}")
    check(V0 <= V, "vertices")
    return V0, F, ca, cb


@contract(["qldpc.codes.quantum.QTCode.__init__", "qldpc.codes.quantum.QTCode.get_subcodes"])
def qtcode(cay, code_a, code_b, bipartite, given):
    q = spec.q_of(code_a)
    Ha, Hb = A(code_a.matrix).copy(), A(code_b.matrix).copy()
    code = codes.QTCode(*given, code_a, code_b, bipartite=bipartite)
    check(np.array_equal(A(code_a.matrix), Ha) and np.array_equal(A(code_b.matrix), Hb), "seed codes were changed")
    V0, F, ca, cb = faces(code.complex, bipartite)
    check(len(code) == len(F), "number of qudits")
    spec.commuting(code)
    check(not code.is_subsystem_code, "type of the code")
    # independent construction, up to the order of faces
    sa, sb = sorted(code.complex.cover_subset_a), sorted(code.complex.cover_subset_b)
    sa, sb = [key(a) for a in sa], [key(b) for b in sb]
    index = {f: i for i, f in enumerate(F)}
    Ga, Gb = la.nullspace(Ha, q), la.nullspace(Hb, q)
    V1 = {mul(a, g) for a in ca for g in V0} | {mul(g, b) for b in cb for g in V0}
    mats = []
    for sources, local in ((V0, la.kron(Ga, Gb, q)), (V1, la.kron(Ha, Hb, q))):
        # local checks: the dual of C_A x C_B is spanned by its checks; ~(C_A x C_B) has the words of C_A x C_B as checks
        rows = []
        for g in sources:
            cols = [index[frozenset([g, mul(a, g), mul(g, b), mul(mul(a, g), b)])] for a in sa for b in sb]
            for r in local:
                row = np.zeros(len(F), dtype=int)
                row[cols] = r
                rows.append(row)
        mats.append(np.array(rows, dtype=int).reshape(-1, len(F)))
    X, Z = mats
    check(not la.matmul(X, Z.T, q).any(), "independent construction does not commute")
    for M, H, name in ((X, A(code.matrix_x), "X"), (Z, A(code.matrix_z), "Z")):
        check(la.rank(M, q) == la.rank(H, q), lambda: f"rank of {name} checks is {la.rank(H, q)}, should be {la.rank(M, q)}")
        cw = lambda T: sorted(len(la.rref(T[:, [i]], q)[0]) for i in range(T.shape[1]))
        check(cw(M) == cw(H), f"{name} checks without support")
    # as local views: the rows of H at one vertex span the local code; test by their sorted supports
    px = sorted(tuple(sorted(len(np.unique(c)) for c in [r])) for r in A(code.matrix_x))
    check(len(px) == len(code.matrix_x), "rows")
    check(isinstance(code.code_x.dimension, int), "X code")
    return code


@contract(["qldpc.codes.quantum.QTCode.save", "qldpc.codes.quantum.QTCode.load", "qldpc.codes.quantum.QTCode.__eq__"])
def reload_code(code, headers):
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d:
        path = os.path.join(d, "sub", "dir", "code.txt")
        before = A(code.matrix).tobytes()
        code.save(path, *headers)
        check(A(code.matrix).tobytes() == before, "saving changed the code")
        new = codes.QTCode.load(path)
        code.save(path, *headers)
        new2 = codes.QTCode.load(path)
        must_raise(ValueError, codes.QTCode.load, path + "x")
    for n in (new, new2):
        check(n == code and code == n, "the loaded code is not equal to the saved one")
        check(n.field is code.field and len(n) == len(code), "field or length of the loaded code")
        check(np.array_equal(A(n.code_a.matrix), A(code.code_a.matrix)) and np.array_equal(A(n.code_b.matrix), A(code.code_b.matrix)), "seed codes")
        check(n.code_a.field is code.code_a.field, "fields of seed codes")
        for s in ("subset_a", "subset_b"):
            check({key(a) for a in getattr(n.complex, s)} == {key(a) for a in getattr(code.complex, s)}, s)
        check(n.complex.bipartite == code.complex.bipartite, "bipartite")
        q = spec.q_of(code)
        check((la.rank(A(n.matrix_x), q), la.rank(A(n.matrix_z), q)) == (la.rank(A(code.matrix_x), q), la.rank(A(code.matrix_z), q)), "ranks")


@contract("qldpc.codes.quantum.QTCode.__eq__")
def inequality(code, rng):
    """Codes with different generating data are different."""
    a, b = set(code.complex.subset_a), set(code.complex.subset_b)
    if len(code.code_a) == len(code.code_b) and a != b:
        other = codes.QTCode(b, a, code.code_a, code.code_b, bipartite=code.complex.bipartite)
        check(not (other == code) and not (code == other), "exchanged subsets, but equal")
    other = None
    q = spec.q_of(code)
    M = A(code.code_a.matrix).copy()
    i = rng.randrange(M.size)
    M.flat[i] = (M.flat[i] + 1) % q
    other = codes.QTCode(a, b, codes.ClassicalCode(gen.gf(M, q)), code.code_b, bipartite=code.complex.bipartite)
    check(not (other == code), "different first seed codes, but equal")
    M = A(code.code_b.matrix).copy()
    i = rng.randrange(M.size)
    M.flat[i] = (M.flat[i] + 1) % q
    other = codes.QTCode(a, b, code.code_a, codes.ClassicalCode(gen.gf(M, q)), bipartite=code.complex.bipartite)
    check(not (other == code), "different second seed codes, but equal")
    flag = code.complex.bipartite
    try:
        other = codes.QTCode(a, b, code.code_a, code.code_b, bipartite=not flag)
    except ValueError:
        other = None
    if other is not None and other.complex.bipartite != flag:
        check(not (other == code) and not (code == other), "one of two codes lives on a bipartite cover, but they are equal")
    check(not (code == 3) and code == codes.QTCode(list(a), list(b), code.code_a, code.code_b, bipartite=code.complex.bipartite), "equality")


@contract(["qldpc.codes.classical.TannerCode.__init__"])
def tanner(rng, q):
    n = rng.randrange(1, 4)
    m = rng.randrange(n, n + 5)
    sub = codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, 3), n, q), q))
    H = A(sub.matrix)
    nsrc = rng.randrange(1, 5)
    graph = nx.DiGraph()
    rows = []
    nodes = list(range(nsrc))
    rng.shuffle(nodes)
    use_sort = rng.random() < 0.7
    used = {}
    for s in nodes:
        nbrs = rng.sample(range(100, 100 + m), n)
        order = list(range(n))
        rng.shuffle(order)
        for i, nb in zip(order, sorted(nbrs) if not use_sort else nbrs):
            if use_sort:
                graph.add_edge(s, nb, sort=i * 3 - 1)
        used[s] = [nb for i, nb in sorted(zip(order, nbrs))] if use_sort else sorted(nbrs)
        if not use_sort:
            for nb in nbrs:
                graph.add_edge(s, nb)
    sinks = sorted({b for u in used.values() for b in u})
    for s in sorted(nodes):
        for r in H:
            row = np.zeros(len(sinks), dtype=int)
            row[[sinks.index(b) for b in used[s]]] = r
            rows.append(row)
    want = np.array(rows).reshape(-1, len(sinks))
    before = sorted(map(str, graph.edges(data=True)))
    code = codes.TannerCode(graph, sub)
    check(sorted(map(str, graph.edges(data=True))) == before, "the graph was changed")
    check(len(code) == len(sinks) and code.field is sub.field, "length or field")
    check(la.same_span(A(code.matrix), want, q), "a Tanner code is not the words whose local views are in the subcode")
    check(code.num_checks == nsrc * len(H), "number of checks")


@contract(["qldpc.codes.classical.TannerCode.as_directed_subgraph"])
def tanner_undirected(rng, q, cover):
    graph = nx.random_regular_graph(3, 2 * rng.randrange(2, 5), seed=rng.randrange(1000))
    sub = codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, 3), 3, q), q))
    H = A(sub.matrix)
    order = {v: dict(zip(graph[v], rng.sample(range(3), 3))) for v in graph}
    for a, b in graph.edges:
        graph[a][b]["sort"] = {a: order[a][b], b: order[b][a]}
    code = codes.TannerCode(graph, sub)
    edges = list(graph.edges)
    index = {frozenset(e): i for i, e in enumerate(edges)}
    rows = []
    for v in graph:
        for r in H:
            row = np.zeros(len(edges), dtype=int)
            for u in graph[v]:
                row[index[frozenset([u, v])]] = r[order[v][u]]
            rows.append(row)
    want = np.array(rows)
    check(len(code) == len(edges), "bits are not edges")
    check(la.rank(A(code.matrix), q) == la.rank(want, q), "rank of a Tanner code on an undirected graph")
    check(sorted(np.count_nonzero(A(code.matrix), axis=0)) == sorted(np.count_nonzero(want, axis=0)), "column weights")


def groups():
    C = abstract.CyclicGroup
    return [C(2), C(3), C(4), C(5), C(6), C(7), C(2) * C(2), C(2) * C(3), C(2) * C(4), abstract.DihedralGroup(3), abstract.DihedralGroup(4),
            abstract.QuaternionGroup(), abstract.AlternatingGroup(4), abstract.SymmetricGroup(3)]


def subset(rng, group, size):
    members = list(group.generate())
    rng.shuffle(members)
    out = set()
    for m in members:
        if len(out | {m, ~m}) <= size:
            out |= {m, ~m}
    return out


@contract("qldpc.abstract.Group.random_symmetric_subset")
def random_subset(group, size, seed):
    s = group.random_symmetric_subset(size, seed=seed)
    check(len(s) == size and all(~m in s for m in s) and all(m in group for m in s), "random_symmetric_subset")


def complexes(ctx):
    gs = groups()
    for i in range(ctx.n(150, 3000)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            g = rng.choice(gs)
            sa, sb = subset(rng, g, rng.randrange(1, 5)), subset(rng, g, rng.randrange(1, 5))
            if not sa or not sb:
                raise Skip("no subset")
            bip = rng.random() < 0.4
            cay = cayley(sa, sb, bip, rng.random() < 0.5)
            if cay is not None:
                faces(cay, bip)

        ctx.case(f"complex-{i}", run)

        def asym(i=i):
            rng = ctx.rng(f"a{i}")
            g = rng.choice(gs)
            ms = [m for m in g.generate() if m != ~m]
            if not ms:
                return
            m = rng.choice(ms)
            other = subset(rng, g, 3) | {g.identity}
            bad = (subset(rng, g, 2) | {m}) - {~m}
            must_raise(ValueError, objects.CayleyComplex, bad, other)
            must_raise(ValueError, objects.CayleyComplex, other, bad)
            must_raise(ValueError, objects.CayleyComplex, bad)
            must_raise(ValueError, objects.CayleyComplex, list(other), list(bad), bipartite=rng.random() < 0.5)

        ctx.case(f"asymmetric-{i}", asym)
        ctx.case(f"random-subset-{i}", lambda i=i: random_subset(gs[i % len(gs)], 1 + i % gs[i % len(gs)].order, i), limit=20) \
            if any(m == ~m and m != gs[i % len(gs)].identity for m in gs[i % len(gs)].generate()) else None


def qtcodes(part):
    def group(ctx):
        gs = groups()
        for i in range(part, ctx.n(90, 1500), 3):
            if ctx.left() < 0:
                break

            def run(i=i):
                rng = ctx.rng(i)
                g = rng.choice(gs[:12])
                sa, sb = subset(rng, g, rng.randrange(1, 4)), subset(rng, g, rng.randrange(1, 4))
                if not sa or not sb:
                    raise Skip("no subset")
                bip = rng.random() < 0.4
                if bip and not tnc({key(a) for a in sa}, {key(b) for b in sb}):
                    bip = False
                q = rng.choice([2, 2, 3, 4])
                mk = lambda n: codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, max(2, n)), n, q), q))
                ca, cb = mk(len(sa)), mk(len(sb))
                given = (list(sa), list(sb)) if rng.random() < 0.5 else (sa, sb)
                code = qtcode(None, ca, cb, bip, given)
                reload_code(code, rng.choice([(), ("a header",), ("two\nlines", "and more: 3", "# hash")]))
                inequality(code, rng)

            ctx.case(f"qtcode-{i}", run)

    return group


@contract("qldpc.objects.CayleyComplex.satisfies_total_no_conjugacy")
def conjugacy(group):
    """the smallest symmetric subsets of a group, pair by pair"""
    units = {frozenset([m, ~m]) for m in group.generate() if m != group.identity}
    for sa, sb in itertools.product(sorted(units, key=lambda u: sorted(map(key, u))), repeat=2):
        want = tnc({key(a) for a in sa}, {key(b) for b in sb})
        check(objects.CayleyComplex.satisfies_total_no_conjugacy(list(sa), list(sb)) == want, "satisfies_total_no_conjugacy")
        if want:
            objects.CayleyComplex(sa, sb, bipartite=True)
        else:
            must_raise(ValueError, objects.CayleyComplex, sa, sb, bipartite=True)


def misc(ctx):
    for i in range(ctx.n(200, 4000)):
        if ctx.left() < 0:
            break
        ctx.case(f"tanner-{i}", lambda i=i: tanner(ctx.rng(i), ctx.rng(f"q{i}").choice([2, 3, 4, 5])))
        if i % 4 == 0:
            ctx.case(f"undirected-{i}", lambda i=i: tanner_undirected(ctx.rng(i), ctx.rng(f"q{i}").choice([2, 3]), None))
    for i, g in enumerate(groups() + [abstract.SymmetricGroup(4)]):
        ctx.case(f"conjugacy-{i}", conjugacy, g)
    for i, g in enumerate(groups()):
        n = min(4, g.order)

        def run(g=g, i=i):
            if i in (1, 3, 5):
                n = 3
            else:
                n = min(4, g.order)
            for one in (False, True):
                code = codes.QTCode.random(g, codes.RepetitionCode(n), seed=7, one_subset=one)
                check(len(code.complex.subset_a) == len(code.complex.subset_b) == n, "sizes of random subsets")
                if one:
                    check(code.complex.subset_a == code.complex.subset_b, "one_subset")
                spec.commuting(code)
                check(code.code_b == ~code.code_a or code.code_b.equiv(~code.code_a), "second seed code")
                reload_code(code, ())

        ctx.case(f"random-{i}", run, limit=30)
    c3 = abstract.CyclicGroup(3)
    s = c3.generators[0]
    ctx.case("underspecified", must_raise, ValueError, codes.QTCode, [s, ~s], [c3.identity], codes.RepetitionCode(2))
    ctx.case("fields", must_raise, ValueError, codes.QTCode, [s, ~s], [s, ~s], codes.RepetitionCode(2), codes.RepetitionCode(2, field=3))

    def full(a, b):
        z = {"full": lambda: codes.ClassicalCode(np.zeros((0, 2), dtype=int), 2), "zero": lambda: ~codes.ClassicalCode(np.zeros((0, 2), dtype=int), 2),
             "rep": lambda: codes.RepetitionCode(2), "onebit": lambda: codes.ClassicalCode([[1, 0]])}
        reload_code(codes.QTCode([s, ~s], [s, ~s], z[a](), z[b]()), ())

    for a, b in itertools.product(("full", "zero", "rep", "onebit"), repeat=2):
        ctx.case(f"seeds-{a}-{b}", full, a, b)


GROUPS = {"complexes": complexes, "qtcodes_0": qtcodes(0), "qtcodes_1": qtcodes(1), "qtcodes_2": qtcodes(2), "misc": misc}
GROUPS.update({g.__name__: g for g in proofs("cayley", "complexes", "tanner")})
