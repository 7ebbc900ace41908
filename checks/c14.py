"""C14: Tanner graphs and Pauli strings round-trip losslessly."""
import itertools

import networkx as nx
import numpy as np
import stim

from vf import env, families, gen, la, spec  # noqa: F401
from vf.proofs import groups as proofs
from vf.harness import Skip, check, contract, must_raise, private
from qldpc import codes, math, objects
from qldpc.objects import Node, Pauli, QuditOperator

QUICK_LIMIT, THOROUGH_LIMIT = 60, 600
C = "qldpc.codes.common."
A = spec.A


def nodes_ok(graph, checks, bits):
    want = {(i, False) for i in range(checks)} | {(i, True) for i in range(bits)}
    got = [(n.index, n.is_data) for n in graph.nodes]
    check(len(got) == len(want) and set(got) == want, "the nodes of the graph are not one per check and per bit")


def shuffled(graph, rng):
    """The same graph with nodes and edges inserted in another order."""
    new = nx.DiGraph()
    nodes, edges = list(graph.nodes), list(graph.edges(data=True))
    rng.shuffle(nodes)
    rng.shuffle(edges)
    new.add_nodes_from(nodes)
    for a, b, data in edges:
        new.add_edge(a, b, **{k: v for k, v in data.items() if isinstance(k, str)})
        for k, v in data.items():
            new[a][b][k] = v
    if isinstance(getattr(graph, "order", None), int):
        new.order = graph.order
    return new


@contract([C + "ClassicalCode.matrix_to_graph", C + "ClassicalCode.graph_to_matrix", C + "AbstractCode.graph"])
def classical(H, q, rng, plain):
    mat = H.copy() if plain else gen.gf(H, q)
    code = codes.ClassicalCode(mat, q if plain else None)
    for graph in (code.graph, codes.ClassicalCode.matrix_to_graph(gen.gf(H, q))):
        nodes_ok(graph, *H.shape)
        check(graph.order == q, "field order of the graph")
        edges = {(a.index, b.index) for a, b in graph.edges}
        check(all(not a.is_data and b.is_data for a, b in graph.edges), "edges do not point from checks to bits")
        check(edges == {tuple(map(int, e)) for e in np.argwhere(H)}, "edges are not the nonzero entries")
        M = codes.ClassicalCode.graph_to_matrix(graph)
        check(type(M).order == q and np.array_equal(A(M), H), lambda: f"matrix -> graph -> matrix gives {A(M).tolist()}")
        M = codes.ClassicalCode.graph_to_matrix(shuffled(graph, rng))
        check(np.array_equal(A(M), H), "the matrix of a graph depends on the order of its nodes or edges")
    g2 = codes.ClassicalCode.matrix_to_graph(codes.ClassicalCode.graph_to_matrix(code.graph))
    check(set(g2.nodes) == set(code.graph.nodes) and set(g2.edges) == set(code.graph.edges), "graph -> matrix -> graph")
    if q == 2:
        graph = codes.ClassicalCode.matrix_to_graph(H.tolist())
        nodes_ok(graph, *H.shape)
        check(np.array_equal(A(codes.ClassicalCode.graph_to_matrix(graph)), H), "lists")
    check(np.array_equal(A(mat), H), "the matrix was changed")


@contract([C + "QuditCode.matrix_to_graph", C + "QuditCode.graph_to_matrix", C + "AbstractCode.graph"])
def quantum(code, rng):
    q, n = spec.q_of(code), len(code)
    H = A(code.matrix)
    for graph in (code.graph, codes.QuditCode.matrix_to_graph(code.matrix)):
        nodes_ok(graph, len(H), n)
        check(graph.order == q, "field order of the graph")
        support = {(int(i), int(j)) for i, j in np.argwhere((H[:, :n] != 0) | (H[:, n:] != 0))}
        check({(a.index, b.index) for a, b in graph.edges} == support, "edges are not the supports of checks")
        check(all(not a.is_data and b.is_data for a, b in graph.edges), "edges do not point from checks to qudits")
        M = codes.QuditCode.graph_to_matrix(graph)
        check(type(M).order == q and np.array_equal(A(M), H), "matrix -> graph -> matrix")
        check(np.array_equal(A(codes.QuditCode.graph_to_matrix(shuffled(graph, rng))), H), "order of nodes or edges matters")
        for a, b, data in graph.edges(data=True):
            op = data.get(QuditOperator) or data.get(Pauli)
            check(tuple(map(int, op.value)) == (H[a.index, b.index], H[a.index, n + b.index]), "operator on an edge")
    check(np.array_equal(A(code.matrix), H), "the code was changed")


@contract([C + "QuditCode.get_strings", C + "QuditCode.from_strings"])
def strings(code):
    q, n = spec.q_of(code), len(code)
    H = A(code.matrix)
    S = code.get_strings()
    check(len(S) == len(H) and all(len(s.split()) == n for s in S), "shape of the strings")
    for i, s in enumerate(S):
        for j, op in enumerate(s.split()):
            v = (Pauli if q == 2 else QuditOperator).from_string(op).value
            check(tuple(map(int, v)) == (H[i, j], H[i, n + j]), lambda: f"the string {op!r} does not name the operator {(H[i, j], H[i, n + j])}")
    if len(S) == 0:
        return
    new = codes.QuditCode.from_strings(*S, field=q)
    check(np.array_equal(A(new.matrix), H) and new.field is code.field, "strings -> code")
    check(new.is_subsystem_code == bool(la.symp(H, H, q).any()), "type of the code read from strings")
    if q == 2:
        check(np.array_equal(A(codes.QuditCode.from_strings(*S).matrix), H), "strings -> code without a field")
    check(new.get_strings() == S, "strings -> code -> strings")


@contract(["qldpc.objects.Pauli." + m for m in ("__mul__", "__invert__", "__str__", "from_string", "__index__")])
def paulis():
    all_ = {(0, 0): "I", (0, 1): "Z", (1, 0): "X", (1, 1): "Y"}
    mats = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Z": np.diag([1, -1]), "Y": np.array([[0, -1j], [1j, 0]])}
    check(len(list(Pauli)) == 4, "number of Paulis")
    for v, s in all_.items():
        p = Pauli(v)
        check(p.value == v and str(p) == s and Pauli.from_string(s) is p, f"printing and parsing {s}")
        check((~p).value == v[::-1] and ~~p is p, "inversion swaps X and Z")
        for w, t in all_.items():
            pr = p * Pauli(w)
            check(pr.value == ((v[0] + w[0]) % 2, (v[1] + w[1]) % 2), "product")
            M = mats[s] @ mats[t]
            check(np.allclose(abs(np.trace(M @ mats[str(pr)].conj().T)), 2), "product of matrices")
            commute = np.allclose(mats[s] @ mats[t], mats[t] @ mats[s])
            a, b = np.array(v), np.array(w)
            check(commute == (int(A(math.symplectic_conjugate(a) @ b)) % 2 == 0), "commutation")
    check(Pauli.X.index == 0 and Pauli.Z.index == 1 and [10, 20][Pauli.Z] == 20 and [10, 20][Pauli.X] == 10, "index")
    for bad in ("x", "", "W", "XX", "X ", "-X", "i"):
        must_raise(ValueError, Pauli.from_string, bad)
    for p in (Pauli.I, Pauli.Y):
        must_raise((AttributeError, TypeError, ValueError), lambda: p.index)


@contract(["qldpc.objects.QuditOperator." + m for m in ("__str__", "from_string", "__invert__", "__neg__", "__eq__")])
def qudit_operator(v):
    op = QuditOperator(v)
    s = str(op)
    back = QuditOperator.from_string(s)
    check(tuple(back.value) == tuple(v) and back == op, lambda: f"{v} prints as {s!r}, which parses as {back.value}")
    check(str(back) == s, "printing again")
    check(" " not in s, "the string of an operator has spaces")
    check(tuple((~op).value) == (v[1], v[0]) and ~~op == op, "inversion swaps X and Z")
    check(tuple((-op).value) == (-v[0], -v[1]) and -(-op) == op, "negation")
    check(op != QuditOperator((v[0] + 1, v[1])) and op != QuditOperator((v[0], v[1] + 1)) and op == QuditOperator(tuple(v)), "==")
    check(tuple(op.value) == tuple(v), "an operation changed the operator")


@contract(["qldpc.math.symplectic_conjugate", "qldpc.math.op_to_string", "qldpc.math.first_nonzero_cols"])
def kernel(M, N, q, field):
    n = M.shape[1] // 2
    a, b = (gen.gf(M, q), gen.gf(N, q)) if field else (M.copy(), N.copy())
    P = math.symplectic_conjugate(a) @ b.T
    check(np.array_equal(A(P) % q if not field else A(P), la.symp(M, N, q)), "symplectic_conjugate(P) @ Q is not the symplectic product")
    check(type(math.symplectic_conjugate(a)) is type(a) and math.symplectic_conjugate(a).shape == a.shape, "type or shape")
    v = A(math.symplectic_conjugate(a[0]))
    check(np.array_equal(v, A(math.symplectic_conjugate(a))[0]), "vectors and matrices disagree")
    check(np.array_equal(A(a), M) and np.array_equal(A(b), N), "the arguments were changed")
    cols = math.first_nonzero_cols(a)
    for i, row in enumerate(M):
        if row.any():
            check(cols[i] == np.nonzero(row)[0][0], "first_nonzero_cols")
    if q == 2 and n:
        sa, sb = stim.PauliString(math.op_to_string(a[0])), stim.PauliString(math.op_to_string(b[0]))
        check(len(sa) == n, "length of a Pauli string")
        x, z = sa.to_numpy()
        check(np.array_equal(np.concatenate([x, z]).astype(int), M[0]) and sa.sign == 1, "op_to_string")
        check(sa.commutes(sb) == (la.symp(M[:1], N[:1], 2)[0, 0] == 0), "commutation of strings")


def graphs(ctx):
    for i in range(ctx.n(250, 4000)):
        if ctx.left() < 0:
            break
        rng = ctx.rng(i)
        q = rng.choice([2, 2, 3, 4, 5, 7, 8, 9])
        H = gen.matrix(rng, rng.randrange(1, 6), rng.randrange(1, 7), q, rng.choice([0.15, 0.4, 0.8]))
        ctx.case(f"classical-{i}", classical, H, q, rng, rng.random() < 0.3 and la.is_prime(q))

        def run():
            n = rng.randrange(1, 6)
            kind = rng.randrange(3)
            if kind == 0:
                code = codes.QuditCode(gen.gf(gen.stabilizer_matrix(rng, n, rng.randrange(1, n + 1), q), q))
            elif kind == 1:
                code = codes.QuditCode(gen.gf(gen.matrix(rng, rng.randrange(1, 5), 2 * n, q, rng.choice([0.15, 0.5])), q))
            else:
                code = codes.CSSCode(*[gen.gf(h, q) for h in gen.css_any(rng, n, q)])
            quantum(code, rng)
            strings(code)

        ctx.case(f"quantum-{i}", run)

    def no_order():
        g = nx.DiGraph()
        g.add_nodes_from([Node(0), Node(1), Node(0, is_data=False)])
        g.add_edge(Node(0, is_data=False), Node(1), val=1)
        check(A(codes.ClassicalCode.graph_to_matrix(g)).tolist() == [[0, 1]], "graph without a field order")
        g[Node(0, is_data=False)][Node(1)][Pauli] = Pauli.Y
        check(A(codes.QuditCode.graph_to_matrix(g)).tolist() == [[0, 1, 0, 1]], "quantum graph without a field order")

    ctx.case("no-order", no_order)


def operators(ctx):
    ctx.case("paulis", paulis)
    for v in itertools.product(range(12), repeat=2):
        ctx.case(f"operator-{v}", qudit_operator, v)
    for bad in ("", "X", "X(", "X()", "X(1", "W(1)", "X(1)Z(1)", "X(1)*Z(1)*X(1)", "X(a)", "X(1) ", "I(1)", "(1)", "x(1)", "X(1)*", "X1"):
        ctx.case(f"invalid-{bad!r}", must_raise, (ValueError, IndexError), QuditOperator.from_string, bad)
    ctx.case("lengths", must_raise, ValueError, codes.QuditCode.from_strings, "X X", "Z")
    for i in range(ctx.n(200, 3000)):
        rng = ctx.rng(i)
        q, n = rng.choice([2, 3, 4, 5, 7, 9]), rng.randrange(1, 7)
        M, N = gen.matrix(rng, rng.randrange(1, 4), 2 * n, q), gen.matrix(rng, rng.randrange(1, 4), 2 * n, q)
        ctx.case(f"kernel-{i}", kernel, M, N, q, not la.is_prime(q) or rng.random() < 0.6)
    for a in range(3):
        for b in range(3):
            for da in (True, False):
                for db in (True, False):
                    def run(a=a, b=b, da=da, db=db):
                        x, y = Node(a, da), Node(b, db)
                        check((x == y) == ((a, da) == (b, db)), "node ==")
                        check((x < y) == ((not da, a) < (not db, b)), "node <")
                        if x == y:
                            check(hash(x) == hash(y), "hash of equal nodes")
                    ctx.case(f"node-{a}{b}{da}{db}", run)


def named(ctx):
    for label, make in families.named_quantum().items():
        if ctx.left() < 0:
            break

        def run(make=make, label=label):
            code = make()
            if len(code) > 60:
                raise Skip("large")
            quantum(code, ctx.rng(label))
            strings(code)

        ctx.case(label, run)


GROUPS = {"graphs": graphs, "operators": operators, "named": named}
GROUPS.update({g.__name__: g for g in proofs('graphs', 'operators', 'graphs')})
