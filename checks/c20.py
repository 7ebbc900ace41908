"""C20: constructors and queries have an empty write frame on the objects of the caller."""
import os
import tempfile

import networkx as nx
import numpy as np
import stim
import sympy

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, private
from qldpc import abstract, circuits, codes, decoders, math, objects
from qldpc.objects import Node, Pauli, QuditOperator

QUICK_LIMIT, THOROUGH_LIMIT = 80, 700
A = spec.A
X, Y = sympy.symbols("x y")


def member_key(m):
    return sorted((tuple(g.array_form), int(c)) for c, g in m if int(c)), str(type(m))


def snap(obj):
    """An immutable picture of everything that is observable about an object."""
    if isinstance(obj, abstract.RingArray):
        return "RingArray", obj.shape, [member_key(m) for m in np.asarray(obj).ravel()]
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return type(obj).__name__, obj.shape, [snap(x) for x in obj.ravel()]
        return type(obj).__name__, obj.dtype.str, obj.shape, obj.tolist()
    if isinstance(obj, abstract.RingMember):
        return member_key(obj)
    if isinstance(obj, abstract.GroupMember):
        return tuple(obj.array_form), obj.size
    if isinstance(obj, abstract.GroupRing):
        return snap(obj.group), obj.field.order
    if isinstance(obj, abstract.Group):
        return type(obj).__name__, [tuple(g.array_form) for g in obj.generators], obj.name, obj.lift_dim
    if isinstance(obj, (nx.Graph, nx.DiGraph)):
        node = lambda n: repr(snap(n)) if isinstance(n, (frozenset, set)) else str(n)
        return (type(obj).__name__, sorted((node(n), repr(d)) for n, d in obj.nodes(data=True)),
                sorted((node(a), node(b), repr(sorted((str(k), str(v)) for k, v in d.items()))) for a, b, d in obj.edges(data=True)),
                obj.__dict__.get("order") if isinstance(obj.__dict__.get("order"), int) else None)
    if isinstance(obj, codes.ClassicalCode):
        return type(obj).__name__, snap(obj.matrix), obj.field.order
    if isinstance(obj, codes.QuditCode):
        extra = (snap(obj.matrix_x), snap(obj.matrix_z)) if isinstance(obj, codes.CSSCode) else None
        return type(obj).__name__, snap(obj.matrix), obj.field.order, obj.is_subsystem_code, extra
    if isinstance(obj, objects.ChainComplex):
        return [snap(op) for op in obj.ops], obj.field.order
    if isinstance(obj, objects.CayleyComplex):
        return snap(obj.graph), snap(obj.subset_a), snap(obj.subset_b), obj.bipartite
    if isinstance(obj, dict):
        return [(snap(k), snap(v)) for k, v in obj.items()]
    if isinstance(obj, (list, tuple)):
        return type(obj).__name__, [snap(x) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(repr(snap(x)) for x in obj)
    if isinstance(obj, float) and np.isnan(obj):
        return "nan"
    return str(obj)


def full(code):
    """Also the operators of a code (computes them, if they are not known yet)."""
    out = [snap(code), code.dimension, code.rank]
    if isinstance(code, codes.QuditCode):
        out += [snap(code.get_logical_ops()), snap(code.get_stabilizer_ops()), snap(code.get_gauge_ops()), code.gauge_dimension]
    else:
        out += [snap(code.generator)]
    return out


CALLS = []


@contract(["every constructor, operator and function that takes arrays, graphs, groups or codes"])
def unchanged(fn, *args, **kwargs):
    """ensures: the arguments are as they were. Returns the result."""
    before = snap([args, kwargs])
    out = fn(*args, **kwargs)
    after = snap([args, kwargs])
    check(before == after, lambda: f"{getattr(fn, '__qualname__', fn)} changed its arguments")
    return out


# --------------------------------------------------------------------------- queries of codes


def code_pool(rng):
    q = rng.choice([2, 2, 3, 4])
    kind = rng.randrange(6)
    if kind == 0:
        items = list(families.named_quantum().items())
        while True:
            name, make = rng.choice(items)
            code = make()
            if len(code) <= 12 and code.field.order ** len(code) <= 4096:
                return name, code
    if kind == 1:
        H = gen.stabilizer_matrix(rng, rng.randrange(2, 5), rng.randrange(1, 3), q)
        return "stabilizer", codes.QuditCode(gen.gf(H, q))
    if kind == 2:
        return "css", codes.CSSCode(*[gen.gf(M, q) for M in gen.css_stabilizer(rng, 5, q)])
    if kind == 3:
        return "css-subsystem", codes.CSSCode(*[gen.gf(M, q) for M in gen.css_any(rng, 4, q)])
    if kind == 4:
        return "hgp", codes.HGPCode(gen.gf(gen.matrix(rng, 1, 2, q), q), gen.gf(gen.matrix(rng, 2, 2, q), q), set_logicals=rng.random() < 0.5)
    return "shp", codes.SHPCode(gen.gf(gen.matrix(rng, 1, 3, q), q), gen.gf(gen.matrix(rng, 2, 3, q), q), set_logicals=rng.random() < 0.5)


def quantum_queries(code, rng):
    """name -> thunk; True in the second place if asking again must give an equal answer."""
    css, n = isinstance(code, codes.CSSCode), len(code)
    gauge = code.is_subsystem_code
    Q = {
        "matrix": (lambda: code.matrix, True), "rank": (lambda: code.rank, True), "dimension": (lambda: code.dimension, True),
        "num_checks": (lambda: code.num_checks, True), "gauge_dimension": (lambda: code.gauge_dimension, True),
        "name": (lambda: code.name, True), "str": (lambda: str(code), True), "weight": (lambda: code.get_weight(), True) if code.num_checks else None,
        "graph": (lambda: code.graph, True), "strings": (lambda: code.get_strings(), True),
        "logical_ops": (lambda: code.get_logical_ops(), True), "logical_ops_x": (lambda: code.get_logical_ops(Pauli.X), True),
        "logical_ops_z": (lambda: code.get_logical_ops(Pauli.Z), True),
        "stabilizer_ops": (lambda: code.get_stabilizer_ops(), True),
        "gauge_ops": (lambda: code.get_gauge_ops(), True), "gauge_ops_x": (lambda: code.get_gauge_ops(Pauli.X), True),
        "stabilizers_canonical": (lambda: code.get_stabilizer_ops(canonicalized=True), True),
        "canonicalized": (lambda: code.canonicalized, True), "equiv": (lambda: type(code).equiv(code, code), True),
        "conjugated": (lambda: code.conjugated([0]), True), "stack": (lambda: codes.QuditCode.stack(code, code), True),
        "dual_subsystem": (lambda: code.get_dual_subsystem_code(), False), "eq": (lambda: code == code, True),
        "distance": (lambda: code.get_distance(), True) if code.field.order ** n <= 256 and not (gauge and not css) else None,
        "params": (lambda: code.get_code_params()[:2], True) if code.field.order ** n <= 256 and not (gauge and not css) else None,
    }
    if css:
        Q |= {
            "matrix_x": (lambda: code.matrix_x, True), "code_x": (lambda: code.code_x, True), "code_z": (lambda: code.get_code(Pauli.Z), True),
            "stabilizers_x": (lambda: code.get_stabilizer_ops(Pauli.X), True),
            "stabilizers_zc": (lambda: code.get_stabilizer_ops(Pauli.Z, canonicalized=True), True),
            "logical_xs": (lambda: code.get_logical_ops(Pauli.X, symplectic=True), True),
            "gauge_zs": (lambda: code.get_gauge_ops(Pauli.Z, symplectic=True), True),
            "css_stack": (lambda: codes.CSSCode.stack(code, code), True),
            "random_op": (lambda: code.get_random_logical_op(Pauli.X, ensure_nontrivial=False), False) if code.dimension else None,
            "bound": (lambda: code.get_distance_bound(2), False) if code.field.order == 2 and code.dimension and len(code.matrix_x) and len(code.matrix_z) else None,
            "distance_x": (lambda: code.get_distance(Pauli.X), True) if code.field.order ** n <= 256 else None,
        }
    if code.field.order == 2 and code.dimension and not (gauge and not css):
        Q["encoder"] = (lambda: str(circuits.get_encoding_circuit(code)), False)
        Q["tableau"] = (lambda: circuits.get_logical_tableau(code, stim.Circuit("H 0")) and None, False) if False else None
        Q["concatenate"] = (lambda: codes.QuditCode.concatenate(code, codes.QuditCode(spec.A(codes.FiveQubitCode().matrix)[:, :10]))
                            if code.dimension == 1 else None, False)
    return {k: v for k, v in Q.items() if v}


@contract(["qldpc.codes.common.QuditCode.*", "qldpc.codes.common.CSSCode.*", "qldpc.circuits.get_encoding_circuit"])
def history(code, rng, steps):
    """Any sequence of queries leaves the code and the earlier answers as they were."""
    eager = rng.random() < 0.5
    state = full(code) if eager else snap(code)
    queries = quantum_queries(code, rng)
    first, kept, done = {}, {}, []
    for _ in range(steps):
        name = rng.choice(sorted(queries))
        ask, repeatable = queries[name]
        done.append(name)
        ans = ask()
        pic = snap(ans)
        if repeatable and name in first:
            check(first[name] == pic, lambda: f"{name} gives another answer when it is asked again; queries: {done}")
        first.setdefault(name, pic)
        kept[len(done)] = (ans, pic, name)
        for a, p, nm in kept.values():
            check(snap(a) == p, lambda: f"an earlier answer of {nm} was changed by {name}; queries: {done}")
        if eager:
            check(full(code) == state, lambda: f"{name} changed the code; queries: {done}")
        else:
            check(snap(code) == state, lambda: f"{name} changed the code; queries: {done}")


@contract(["qldpc.codes.common.ClassicalCode.*"])
def classical_history(code, rng, steps):
    n = len(code)
    bits = [b for b in range(n) if rng.random() < 0.3]
    other = codes.ClassicalCode(gen.gf(gen.matrix(rng, 1, 2, code.field.order), code.field.order))
    Q = {
        "matrix": lambda: code.matrix, "rank": lambda: code.rank, "dimension": lambda: code.dimension, "generator": lambda: code.generator,
        "graph": lambda: code.graph, "canonicalized": lambda: code.canonicalized, "dual": lambda: code.dual(), "invert": lambda: ~code,
        "words": lambda: sorted(map(tuple, (w.tolist() for w in code.iter_words()))), "random": lambda: code.get_random_word(seed=3),
        "tensor": lambda: codes.ClassicalCode.tensor_product(code, other), "stack": lambda: codes.ClassicalCode.stack(code, other),
        "puncture": lambda: code.puncture(*bits) if len(bits) < n else None, "shorten": lambda: code.shorten(*bits) if len(bits) < n else None,
        "distance": lambda: code.get_distance(), "params": lambda: code.get_code_params(), "str": lambda: str(code),
        "vector": lambda: code.get_distance(vector=[1] * n), "copy": lambda: codes.ClassicalCode(code), "contains": lambda: [0] * n in code,
        "equiv": lambda: codes.ClassicalCode.equiv(code, other), "eq": lambda: code == other,
        "css": lambda: codes.CSSCode(code, code), "hgp": lambda: codes.HGPCode(code, other), "shp": lambda: codes.SHPCode(code),
    }
    if code.field.order == 2 and len(code.matrix) and code.dimension:
        Q["bound"] = lambda: code.get_distance_bound(2) and None
    state, other_state = full(code), full(other)
    first, done, kept = {}, [], []
    for _ in range(steps):
        name = rng.choice(sorted(Q))
        done.append(name)
        ans = Q[name]()
        pic = snap(ans)
        check(first.setdefault(name, pic) == pic, lambda: f"{name} gives another answer when it is asked again; queries: {done}")
        kept.append((ans, pic, name))
        for a, p, nm in kept:
            check(snap(a) == p, lambda: f"an earlier answer of {nm} was changed by {name}; queries: {done}")
        check(full(code) == state and full(other) == other_state, lambda: f"{name} changed a code; queries: {done}")


def histories(part):
    def group(ctx):
        for i in range(part, ctx.n(90, 1500), 3):
            if ctx.left() < 0:
                break

            def run(i=i):
                rng = ctx.rng(i)
                if i % 3 == 0 and rng.random() < 0.9:
                    q = rng.choice([2, 3, 4])
                    n = rng.randrange(2, 6 if q == 2 else 4)
                    classical_history(codes.ClassicalCode(gen.gf(gen.matrix(rng, rng.randrange(1, 4), n, q), q)), rng, ctx.n(12, 20))
                else:
                    _, code = code_pool(rng)
                    history(code, rng, ctx.n(12, 20))

            ctx.case(f"history-{i}", run)

    return group


# --------------------------------------------------------------------------- derived codes


def mutate(code, rng):
    """The documented ways to change a code."""
    if isinstance(code, codes.ClassicalCode):
        try:
            code.set_generator(A(code.generator)[::-1])
        except ValueError:
            pass
        return
    k = code.dimension
    if not k:
        return
    L = A(code.get_logical_ops())
    n, q = len(code), code.field.order
    perm = list(range(k))
    rng.shuffle(perm)
    P = np.zeros((k, k), dtype=int)
    P[range(k), perm] = 1
    T = np.triu(np.ones((k, k), dtype=int))  # X -> T X, Z -> T^-T Z
    M = la.matmul(P, T, q)
    N = gen.inverse(M, q).T
    new = np.vstack([la.matmul(M, L[:k], q), la.matmul(N, L[k:], q)])
    code.set_logical_ops(gen.gf(new, q))
    if isinstance(code, codes.CSSCode) and q == 2 and len(code.matrix_x) and len(code.matrix_z):
        code.reduce_logical_ops()


@contract(["codes derived from codes: aliasing"])
def derived(code, rng):
    """Setters of a code change neither the code that it was derived from nor its siblings."""
    css, q = isinstance(code, codes.CSSCode), code.field.order
    D = {
        "copy": lambda: codes.QuditCode(code), "canonicalized": lambda: code.canonicalized, "conjugated": lambda: code.conjugated(),
        "conjugated0": lambda: code.conjugated([0]), "stack": lambda: codes.QuditCode.stack(code, code),
        "dual": lambda: code.get_dual_subsystem_code(), "conjugated-none": lambda: code.conjugated([]),
    }
    if css:
        D |= {"css-stack": lambda: codes.CSSCode.stack(code, code), "css": lambda: codes.CSSCode(code.code_x, code.code_z, is_subsystem_code=code.is_subsystem_code),
              "from-matrices": lambda: codes.CSSCode(code.matrix_x, code.matrix_z, is_subsystem_code=code.is_subsystem_code)}
    if q == 2 and not code.is_subsystem_code:
        D["deformed"] = lambda: code.deformed(stim.Circuit("H 0"))
        D["deformed-identity"] = lambda: code.deformed(stim.Circuit("I 0"))
    if code.dimension == 1 and not code.is_subsystem_code:
        five = codes.SteaneCode() if q == 2 else None
        if five is not None:
            D["concatenated"] = lambda: codes.QuditCode.concatenate(code, five)
            D["concatenated-outer"] = lambda: codes.QuditCode.concatenate(five, code)
    if rng.random() < 0.8:
        state = full(code)
    else:
        state = None
    for name in sorted(D):
        try:
            new = D[name]()
        except NotImplementedError:
            continue
        state = state or full(code)
        check(full(code) == state, f"constructing a code by {name} changed the original")
        if not (new.is_subsystem_code and not isinstance(new, codes.CSSCode)):
            mutate(new, rng)
        check(full(code) == state, f"setting the logical operators of a code constructed by {name} changed the original")
        # and the other way around
    new = {}
    for name in sorted(D):
        try:
            new[name] = D[name]()
        except NotImplementedError:
            pass
    new = {k: v for k, v in new.items() if not (v.is_subsystem_code and not isinstance(v, codes.CSSCode))}
    pics = {name: full(c) for name, c in new.items()}
    mutate(code, rng)
    for name, c in new.items():
        check(full(c) == pics[name], f"setting the logical operators of a code changed the code derived from it by {name}")


def derivations(ctx):
    for i in range(ctx.n(50, 700)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            name, code = code_pool(rng)
            if code.is_subsystem_code and not isinstance(code, codes.CSSCode):
                raise Skip("non-CSS subsystem code")
            derived(code, rng)

        ctx.case(f"derived-{i}", run)


# --------------------------------------------------------------------------- constructors, objects, decoders


def build(ctx):
    for i in range(ctx.n(60, 800)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            q = rng.choice([2, 2, 3, 4])
            forms = [lambda M: M.copy(), lambda M: M.tolist(), lambda M: gen.gf(M, q), lambda M: codes.ClassicalCode(gen.gf(M, q))]
            form = rng.choice(forms[2:] if q > 2 else forms)
            H = lambda r, c: form(gen.matrix(rng, r, c, q))
            c = unchanged(codes.ClassicalCode, H(2, 4))
            unchanged(codes.ClassicalCode, c)
            cx, cz = gen.css_stabilizer(rng, 4, q)
            unchanged(codes.CSSCode, *[form(M) if len(M) and len(cx) and len(cz) else gen.gf(M, q) for M in (cx, cz)])
            for cls in (codes.HGPCode, codes.SHPCode):
                unchanged(cls, H(2, 3), H(1, 2))
                one = H(2, 2)
                unchanged(cls, one)
            S = gen.stabilizer_matrix(rng, 3, 2, q)
            field = {} if q == 2 else {"field": q}
            qc = unchanged(codes.QuditCode, rng.choice([S.copy(), S.tolist()]), **field)
            qc = unchanged(codes.QuditCode, gen.gf(S, q))
            unchanged(codes.QuditCode, qc)
            unchanged(codes.QuditCode.graph_to_matrix, qc.graph)
            unchanged(codes.QuditCode.from_strings, *qc.get_strings(), field=q)
            unchanged(codes.ClassicalCode.graph_to_matrix, codes.ClassicalCode(c).graph)
            G = la.rref(gen.matrix(rng, 2, 4, q), q)[0]
            if len(G):
                unchanged(codes.ClassicalCode.from_generator, gen.gf(G, q))
                unchanged(codes.ClassicalCode.from_generator, G.tolist(), q)
                d = codes.ClassicalCode.from_generator(gen.gf(G, q))
                g2 = gen.gf(la.matmul(gen.invertible(rng, len(G), q), G, q), q)
                unchanged(d.set_generator, g2)
            B = gen.gf(np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), q)
            unchanged(codes.TBCode, B, gen.gf(la.matmul(A(B), A(B), q), q))
            sub = codes.ClassicalCode(gen.gf(gen.matrix(rng, 1, 3, q), q))
            for g in (nx.complete_graph(4), nx.DiGraph(codes.ClassicalCode(gen.gf(np.ones((2, 3), dtype=int), 2)).graph)):
                unchanged(codes.TannerCode, g, sub)
            orders = {X: 3, Y: 2}
            unchanged(codes.BBCode, orders, 1 + X, 1 + X * Y, field=q)
            unchanged(codes.QCCode, [3, 2, 2], 1 + X, 1 + X * Y, field=q)
            ops = (c.matrix, c.generator.T)
            cc = unchanged(objects.ChainComplex, *ops)
            other = unchanged(objects.ChainComplex, codes.ClassicalCode(gen.gf(gen.matrix(rng, 1, 2, q), q)).matrix)
            unchanged(objects.ChainComplex, list(ops) if False else ops[0])
            unchanged(objects.ChainComplex.tensor_product, cc, other)
            unchanged(lambda x: x.T, cc)
            for V in (gen.gf(S, q), S.copy()):
                unchanged(math.symplectic_conjugate, V)
                unchanged(math.first_nonzero_cols, V)
            unchanged(math.op_to_string, A(la.rref(S % 2, 2)[0][0] if (S % 2).any() else S[0] % 2))

        ctx.case(f"build-{i}", run)


def algebra(ctx):
    pools = [(g, 2) for g in ("C2xC2", "C3", "C4")] + [(g, 3) for g in ("C2", "C4")]
    for i in range(ctx.n(40, 600)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            if rng.random() < 0.6:
                name, q = rng.choice(pools)
                group = families.abelian_groups()[name]
            else:
                group, q = rng.choice(list(families.nonabelian_groups().values())), 2
                q = 3 if isinstance(group, abstract.QuaternionGroup) else 2  # the lift of this group is over GF(3)
            ring = abstract.GroupRing(group, q)
            members = list(group.generate())
            rm = lambda: abstract.RingMember(ring, *[(rng.randrange(1, q), rng.choice(members)) for _ in range(rng.randrange(0, 4))])
            a, b, g = rm(), rm(), rng.choice(members)
            c = rng.randrange(q)
            for fn in (lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a == b, lambda a, b: (a.T, b.inverse())):
                unchanged(fn, a, b)
            for fn in (lambda a, g: a + g, lambda a, g: g + a, lambda a, g: a * g, lambda a, g: g * a, lambda a, g: a - g):
                unchanged(fn, a, g)
            for fn in (lambda a: a + c, lambda a: c * a, lambda a: a * c, lambda a: -a, lambda a: a**3, lambda a: a.lift(), lambda a: a.regular_lift(),
                       lambda a: a.to_vector(), lambda a: bool(a), lambda a: list(a), lambda a: a.copy()):
                unchanged(fn, a)

            def inplace(a, b):
                x = a
                x += b
                x *= b
                x -= b
                y = a.copy()
                y += 1
                return x
            unchanged(inplace, a, b)
            unchanged(abstract.RingMember.from_vector, ring, a.to_vector())
            R, C = rng.randrange(1, 4), rng.randrange(1, 4)
            M = abstract.RingArray([[rm() for _ in range(C)] for _ in range(R)])
            N = abstract.RingArray([[rm() for _ in range(2)] for _ in range(C)])
            for fn in (lambda M: M.T, lambda M: ~M, lambda M: M.lift(), lambda M: M.regular_lift(), lambda M: M.row_reduce(), lambda M: M.null_space(),
                       lambda M: M.to_field_array(), lambda M: M + M, lambda M: -M, lambda M: np.kron(M, M)):
                unchanged(fn, M)
            def exact(M):
                try:
                    M.row_reduce(force_heuristic=False), M.null_space(force_heuristic=False)
                except NotImplementedError:
                    pass
            unchanged(exact, M)
            unchanged(lambda M, N: M @ N, M, N)
            unchanged(abstract.RingArray, M)
            unchanged(lambda V: (V.to_field_vector(), V.to_field_array()), abstract.RingArray([rm() for _ in range(C)]))
            raw = np.array([[rm() for _ in range(C)] for _ in range(R)], dtype=object).reshape(R, C)
            unchanged(abstract.RingArray, raw)
            data = [[rng.choice([0, 1, g, rm()]) for _ in range(C)] for _ in range(R)]
            unchanged(abstract.RingArray.build, data, ring)
            unchanged(abstract.RingArray.build, np.array(data, dtype=object).reshape(R, C), ring)
            unchanged(abstract.RingArray.from_field_array, ring, M.to_field_array())
            if group.is_abelian:
                unchanged(codes.LPCode, M, N)
                unchanged(codes.LPCode, M)
                unchanged(codes.SLPCode, M)
                unchanged(objects.ChainComplex.tensor_product, objects.ChainComplex(M), objects.ChainComplex(N))
            unchanged(lambda x, y: x * y, group, abstract.CyclicGroup(2))
            table = group.table.copy()
            unchanged(abstract.Group.from_table, table)
            sub = [m for m in members if rng.random() < 0.3] or [members[-1]]
            sub = set(sub) | {~m for m in sub}
            if len(members) > 2:
                unchanged(objects.CayleyComplex, sub, bipartite=False)
                unchanged(objects.CayleyComplex.satisfies_total_no_conjugacy, sub, list(sub))
                unchanged(objects.CayleyComplex, list(sub), sorted(sub), bipartite=False)

        ctx.case(f"algebra-{i}", run)

    def qt(seed):
        rng = ctx.rng(f"qt-{seed}")
        group = rng.choice([abstract.CyclicGroup(7), abstract.DihedralGroup(4), abstract.CyclicGroup(4) * abstract.CyclicGroup(2)])
        for t in range(100):
            sa, sb = group.random_symmetric_subset(3, seed=seed + 2 * t), group.random_symmetric_subset(3, seed=seed + 2 * t + 1)
            if objects.CayleyComplex.satisfies_total_no_conjugacy(sa, sb):
                break
        else:
            raise Skip("no subsets")
        ca = codes.ClassicalCode(gen.matrix(rng, 1, 3, 2, 0.9) | np.array([[1, 0, 0]]))
        code = unchanged(codes.QTCode, sa, sb, ca, bipartite=False)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "code.txt")
            unchanged(code.save, path)
            before = open(path).read()
            codes.QTCode.load(path)
            check(open(path).read() == before, "loading a code changed the file")

    for seed in range(ctx.n(4, 30)):
        ctx.case(f"qt-{seed}", qt, seed)


@contract(["qldpc.decoders.*"])
def decoder_frames(kind, H, syndromes, args):
    before = H.copy()
    dec = unchanged(decoders.get_decoder, H, **args)
    fresh = {}
    for s in syndromes:
        pic = snap(s)
        out = A(dec.decode(s)).tolist()
        check(snap(s) == pic, f"{kind} changed the syndrome")
        key = tuple(np.array(s, dtype=int).tolist())
        check(fresh.setdefault(key, out) == out, f"{kind} gives another answer when the same syndrome is decoded again")
        check(snap(H) == snap(before), f"{kind} changed the parity check matrix")
        one = A(unchanged(decoders.decode, H, s, **args)).tolist()
        check(one == out, f"{kind}: the answer of a decoder depends on the syndromes decoded before")


def decoding(ctx):
    for i in range(ctx.n(40, 500)):
        if ctx.left() < 0:
            break

        def run(i=i):
            rng = ctx.rng(i)
            q = rng.choice([2, 2, 2, 3])
            H = gen.matrix(rng, rng.randrange(1, 4), rng.randrange(2, 6), q)
            H = H[H.any(axis=1)]
            if not len(H):
                raise Skip("no checks")
            errs = [np.array([rng.randrange(q) for _ in range(H.shape[1])]) for _ in range(4)]
            kinds = {"lookup": {"with_lookup": True, "max_weight": 2}, "ilp": {"with_ILP": True}, "guf": {"with_GUF": True}}
            if q == 2 and H.any(axis=0).all():
                kinds |= {"bp_osd": {}, "bp_lsd": {"with_BP_LSD": True}}
                if (H.sum(axis=0) <= 2).all():
                    kinds |= {"bf": {"with_BF": True}, "mwpm": {"with_MWPM": True}}
            for kind, args in kinds.items():
                if q > 2 and kind == "guf":
                    M = gen.gf(H, q)
                else:
                    M = gen.gf(H, q) if q > 2 or rng.random() < 0.5 and kind in ("lookup", "guf", "ilp") else H.astype(rng.choice([int, np.uint8]) if kind != "bp_osd" else int)
                syn = [la.matmul(H, e.reshape(-1, 1), q).ravel() for e in errs]
                syn = [s.astype(np.uint8) if kind.startswith("b") else gen.gf(s, q) if type(M) is not np.ndarray else s for s in syn]
                decoder_frames(kind, M, syn + syn[:2], args)
            D = decoders.GUFDecoder(H if q == 2 else gen.gf(H, q))
            direct = decoders.DirectDecoder.from_indirect(D, gen.gf(H, q))
            for e in errs:
                unchanged(direct.decode, gen.gf(e, q))

        ctx.case(f"decode-{i}", run)


def circuit_frames(ctx):
    pool = [codes.FiveQubitCode, codes.SteaneCode, codes.C4Code, lambda: codes.SurfaceCode(2), lambda: codes.BaconShorCode(2),
            lambda: codes.ToricCode(2), lambda: codes.IcebergCode(3), lambda: codes.SurfaceCode(3)]
    for i, make in enumerate(pool):
        def run(make=make, i=i):
            code = make()
            n, k = len(code), code.dimension
            lazy = snap(code)
            circuits.get_encoding_tableau(code)
            check(snap(code) == lazy, "get_encoding_tableau changed the code")
            state = full(code)
            a = str(circuits.get_encoding_circuit(code))
            check(full(code) == state, "get_encoding_circuit changed the code")
            check(str(circuits.get_encoding_circuit(code)) == a, "get_encoding_circuit gives another answer when it is asked again")
            circuit = stim.Circuit("\n".join(f"{rng_gate} {j}" for j, rng_gate in zip(range(n), "HSIX" * n)))
            text = str(circuit)
            phys = stim.Circuit(f"X {n - 1}")
            for fn in (lambda: circuits.get_logical_tableau(code, phys), lambda: circuits.get_encoder_and_decoder(code),
                       lambda: code.deformed(circuit) if not code.is_subsystem_code else None):
                fn()
                check(full(code) == state, "a query of circuits changed the code")
                check(str(circuit) == text and str(phys) == f"X {n - 1}", "a circuit was changed")
            if k and not code.is_subsystem_code and isinstance(code, codes.CSSCode):
                p0 = code.get_logical_error_rate_func(20, 0.3)(0.1)
                check(full(code) == state and len(p0) == 2, "get_logical_error_rate_func changed the code")

        ctx.case(f"circuit-{i}", run)


GROUPS = {"histories_0": histories(0), "histories_1": histories(1), "histories_2": histories(2), "derivations": derivations, "build": build,
          "algebra": algebra, "decoding": decoding, "circuits": circuit_frames}
GROUPS.update({g.__name__: g for g in proofs("frames", "modules", "probes")})
