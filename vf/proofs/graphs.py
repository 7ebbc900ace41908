"""C14: single-qudit operators, and Tanner graphs of matrices of every shape over every field."""
from __future__ import annotations

import builtins
import itertools

import z3
from qldpc import objects
from qldpc.codes import common
from qldpc.objects import Node, Pauli, QuditOperator

from ..sym import loops, scalar
from ..sym.mat import CTX, Unsupported
from ..sym.prove import prove
from ..sym.scalar import SInt, assume

TRUSTED = [
    "networkx: add_nodes_from adds its nodes and nothing else, add_edge(u, v, **data) adds the edge (and its ends) with the data",
    "numpy: np.nonzero lists every position with a nonzero entry once; reshape(r, 2, c // 2) splits each row into halves",
    "Python: str and int are inverse on decimal numerals, which the code treats as opaque",
]
O = "qldpc.objects."
C = "qldpc.codes.common."


# ---- operators

def operators(h):
    P = lambda name, target, body, **k: prove(h, name, target, body, [objects], plain=True, **k)

    def paulis(ctx, c, F):
        """All Pauli operators: the domain is finite, every case is evaluated."""
        for p in Pauli:
            x, z = p.value
            c.true(Pauli((x, z)) is p, "operators are identified by their support")
            c.true((~p).value == (z, x), f"~{p} exchanges X and Z")
            c.true(str(p) == {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[x, z] and Pauli.from_string(str(p)) is p, f"{p}: printing and parsing are inverse")
            for q in Pauli:
                a, b = q.value
                c.true((p * q).value == ((x + a) % 2, (z + b) % 2), f"{p} * {q} adds supports modulo 2")
        c.true(len(Pauli) == 4, "there are four Pauli operators")
        c.true(Pauli.X.index == Pauli.X.__index__() == 0 and Pauli.Z.index == Pauli.Z.__index__() == 1, "X is the first half, Z the second")
        for bad in ("", "x", "XX", "I ", "W", "1", "i"):
            try:
                Pauli.from_string(bad)
            except ValueError:
                continue
            c.true(False, f"{bad!r} is accepted")
        for p in (Pauli.I, Pauli.Y):
            try:
                p.__index__()
            except AttributeError:
                continue
            c.true(False, f"{p} has an index")
    P("Pauli operators: products, Hadamard transform, printing, parsing, indices (all cases)", O + "Pauli", paulis)

    def strings(ctx, c, F):
        x, z = Numeral("x", 1), Numeral("z", 10)
        for v in (x, z):
            assume(v.z >= 0)
        op = QuditOperator((x, z))
        text = QuditOperator.__str__(op)
        back = QuditOperator.from_string(text)
        c.true(isinstance(back, QuditOperator) and len(back.value) == 2, "a qudit operator")
        c.valid(z3.And(scalar.term(back.value[0]) == x.z, scalar.term(back.value[1]) == z.z), f"reading {text!r} gives the operator that was printed")
    P("qudit operators: reading what was printed gives the same operator", O + "QuditOperator.__str__, QuditOperator.from_string", strings,
      min_paths=5, int=numeral_int)

    def algebra(ctx, c, F):
        x, z = SInt("x"), SInt("z")
        op = QuditOperator((x, z))
        a, b = QuditOperator.__invert__(op), QuditOperator.__neg__(op)
        c.true(a is not op and b is not op, "new operators")
        c.valid(z3.And(scalar.term(a.value[0]) == z.z, scalar.term(a.value[1]) == x.z), "~op exchanges X and Z")
        c.valid(z3.And(scalar.term(b.value[0]) == -x.z, scalar.term(b.value[1]) == -z.z), "-op inverts both")
        c.true(op.value[0] is x and op.value[1] is z, "op is not changed")
        d = QuditOperator((SInt("u"), SInt("v")))
        eq = bool(QuditOperator.__eq__(op, d))
        same = z3.And(x.z == z3.Int("u"), z.z == z3.Int("v"))
        c.valid(same if eq else z3.Not(same), "equality is equality of both exponents")
        c.true(QuditOperator.__eq__(op, 3) is False or QuditOperator.__eq__(op, 3) is NotImplemented, "other objects are different")
    P("qudit operators: Fourier transform, inverse, equality", O + "QuditOperator", algebra, min_paths=2)

    def nodes(ctx, c, F):
        i, j = SInt("i"), SInt("j")
        assume(z3.And(i.z >= 0, j.z >= 0))
        a, b = Node(i, is_data=ctx.decide("a is data")), Node(j, is_data=ctx.decide("b is data"))
        lt, gt = bool(a < b), bool(b < a)
        eq = z3.And(i.z == j.z) if a.is_data == b.is_data else z3.BoolVal(False)
        c.valid(z3.Or(eq, lt != gt) if not (lt and gt) else False, "different nodes are ordered one way, equal nodes are not")
        if a.is_data != b.is_data:
            c.true(lt == a.is_data, "data nodes precede check nodes")
        else:
            c.valid((i.z < j.z) == lt, "nodes of one kind are ordered by index")
    P("nodes are totally ordered, data nodes first", O + "Node.__lt__", nodes, min_paths=4)


class Numeral(SInt):
    """A number whose decimal representation is opaque."""

    __slots__ = ("digits",)
    table = {}

    def __init__(self, name, width):
        SInt.__init__(self, name)
        self.digits = str(builtins.sum(map(ord, name)))[0] * width
        Numeral.table[self.digits] = self

    def __format__(self, spec):
        if spec:
            raise Unsupported("format of a symbolic number")
        return self.digits

    __str__ = lambda self: self.digits


class _NI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, str) and x in Numeral.table:
            return Numeral.table[x]
        return x if isinstance(x, SInt) else builtins.int(x, *a)


class numeral_int(metaclass=_NI):
    pass


# ---- Tanner graphs

class Shape(SInt):
    """A dimension of an array."""


class Matrix:
    """A matrix of symbolic shape; entries are named by their position."""

    __array_ufunc__ = None
    field = False

    def __init__(self, name, shape, order=None, split=False):
        self.name, self.shape, self.order, self.split = name, shape, order, split
        self.writes = []

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        if len(s) == 3 and not self.split:
            r, two, half = s
            if CTX[-1].claims is None or builtins.int(two) != 2:
                raise Unsupported("reshape")
            cl = CTX[-1].claims
            cl.valid(scalar.term(r) == scalar.term(self.shape[0]), "rows are kept")
            if half is not -1:
                cl.valid(2 * scalar.term(half) == scalar.term(self.shape[1]), "rows are split into halves")
            m = type(self)(self.name, (self.shape[0], 2, SInt(scalar.term(self.shape[1]) / 2)), self.order, True)
            return m
        if len(s) == 2 and self.split:
            r, n = s
            cl = CTX[-1].claims
            cl.valid(z3.And(scalar.term(r) == scalar.term(self.shape[0]), scalar.term(n) == 2 * scalar.term(self.shape[2])), "halves are joined")
            self.joined = True
            return self
        raise Unsupported("reshape")

    def __getitem__(self, k):
        return Entry(self, k if isinstance(k, tuple) else (k,))

    def __setitem__(self, k, v):
        self.writes.append((k, v))


class FieldMatrix(Matrix):
    """A matrix over a field."""


class Entry:
    def __init__(self, m, k):
        self.m, self.k = m, k

    def __getitem__(self, k):
        return Entry(self.m, self.k + (k if isinstance(k, tuple) else (k,)))

    def value(self):
        if len(self.k) != (3 if self.m.split else 2):
            raise Unsupported("part of a matrix")
        ks = [scalar.term(k) for k in self.k]
        f = z3.Function(f"entry_{self.m.name}", *[z3.IntSort()] * len(ks), z3.IntSort())
        return SInt(f(*ks))

    def __int__(self):
        raise Unsupported("int")


class Int(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, Entry):
            return x.value()
        return x if isinstance(x, SInt) else builtins.int(x, *a)


class sym_int(metaclass=Int):
    pass


class Positions:
    def __init__(self, m):
        self.m = m

    def __iter__(self):
        return iter([self])


class Zip:
    """zip(*np.nonzero(m)): all positions of nonzero entries."""

    def __init__(self, m):
        self.m = m

    def __iter__(self):
        raise Unsupported("iteration over positions")


def sym_zip(*a):
    if len(a) == 1 and isinstance(a[0], Positions):
        return Zip(a[0].m)
    return builtins.zip(*a)


class NP:
    def __getattr__(self, k):
        import numpy
        return getattr(numpy, k)

    @staticmethod
    def asanyarray(m):
        return m

    @staticmethod
    def nonzero(m):
        return Positions(m)

    @staticmethod
    def zeros(shape, dtype=None):
        split = len(shape) == 3
        if split and builtins.int(shape[1]) != 2:
            raise Unsupported("zeros")
        return Matrix("new", tuple(shape), split=split)


class GaloisField:
    def __init__(self, q):
        self.q = q

    def Zeros(self, shape):
        m = FieldMatrix("new", tuple(shape), self.q)
        return m

    def __call__(self, m):
        if not isinstance(m, Matrix):
            raise Unsupported("field array")
        m.cast = self.q
        return m


class Galois:
    FieldArray = FieldMatrix

    @staticmethod
    def GF(q):
        return GaloisField(q)


class Range:
    def __init__(self, n):
        self.n = n

    def __iter__(self):  # one arbitrary index; only node generators consume it
        CTX[-1].open_ranges = getattr(CTX[-1], "open_ranges", 0) + 1
        i = SInt(f"idx{next(CTX[-1].fresh)}")
        CTX[-1].__dict__.setdefault("range_of", {})[str(i.z)] = self.n
        yield i


def sym_range(*a):
    return Range(a[0]) if len(a) == 1 and isinstance(a[0], SInt) else builtins.range(*a)


class Graph:
    """Records what is added."""

    def __init__(self):
        self.node_sets, self.added, self.data = [], [], {}

    def add_nodes_from(self, it):
        before = getattr(CTX[-1], "open_ranges", 0)
        got = list(it)
        if getattr(CTX[-1], "open_ranges", 0) != before + 1 or len(got) != 1:
            raise Unsupported("nodes")
        CTX[-1].open_ranges = before
        n = got[0]
        self.node_sets.append((CTX[-1].range_of[str(n.index.z)], n.is_data))

    def add_edge(self, a, b, **data):
        self.added.append((a, b))
        self.data.setdefault("edge", {}).update(data)

    def __getitem__(self, a):
        g = self

        class Row:
            def __getitem__(self, b):
                if not g.added or not (g.added[-1][0] is a and g.added[-1][1] is b):
                    raise Unsupported("another edge is read")
                return g.data["edge"]
        return Row()

    def edges(self, data=False):
        return Edges(self)


class Edges:
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        raise Unsupported("iteration over edges")


class Nx:
    DiGraph = Graph


def node_pair(it):
    return it


class AllPositions(loops.Loop):
    """The loop adds, for every nonzero position, one edge with its data; claims about an arbitrary position."""

    mutates = loops.ANY

    def __init__(self, m, claim, start=lambda d: None):
        self.m, self.claim, self.start = m, claim, start

    def enter(self, it, env):
        if not isinstance(it, Zip) or it.m.name != self.m.name:
            raise Unsupported("the loop runs over something else")
        self.g = next((v for v in env.values() if isinstance(v, Graph)), None)
        if self.g is None or self.g.added or any(env.get(r) is not self.g for r in self.roots):
            raise Unsupported("the loop modifies something else")

    def havoc(self, env):
        self.g.added, self.g.data = [], {}
        self.start(self.g.data)
        return {}

    def item(self, env):
        self.pos = tuple(SInt(f"p{i}") for i in range(3 if self.m.split else 2)) if not self.m.split else (SInt("p0"), XZ, SInt("p2"))
        assume(Entry(self.m, self.pos).value().z >= 1)  # the loop visits nonzero entries
        return self.pos

    def back(self, env):
        self.claim(CTX[-1].claims, self.g, self.pos)
        self.ran = True

    def done(self, env):
        self.g.finished = True


XZ = 0


def graphs(h):
    extra = dict(np=NP(), galois=Galois, nx=Nx, zip=sym_zip, range=sym_range, int=sym_int)
    P = lambda name, target, body, **k: prove(h, name, C + target, body, [common], plain=True, **{**extra, **k})
    CC, QC = common.ClassicalCode, common.QuditCode

    def nodes_are(c, g, checks, data):
        got = {d: n for n, d in g.node_sets}
        c.true(len(g.node_sets) == 2 and set(got) == {True, False}, "check nodes and data nodes are added once")
        c.valid(z3.And(scalar.term(got[False]) == scalar.term(checks), scalar.term(got[True]) == scalar.term(data)),
                "one node for each row and each (qu)dit, also if it is isolated")

    def classical(ctx, c, F):
        over_field = ctx.decide("a field array")
        m = (FieldMatrix if over_field else Matrix)("H", (SInt("r"), SInt("n")))
        if over_field:
            FieldMatrix.order = SInt("q")
        m.__dict__.pop("order", None)

        def claim(c, g, pos):
            c.true(len(g.added) == 1, "one edge for each nonzero entry")
            a, b = g.added[0]
            c.true(isinstance(a, Node) and isinstance(b, Node) and not a.is_data and b.is_data, "edges go from checks to bits")
            c.valid(z3.And(scalar.term(a.index) == pos[0].z, scalar.term(b.index) == pos[1].z), "the edge of entry (r, c) joins check r and bit c")
            v = g.data["edge"].get("val")
            c.true(isinstance(v, Entry) and v.m is m and set(g.data["edge"]) == {"val"}, "the edge carries the value")
            c.valid(v.value().z == Entry(m, pos).value().z, "the value is that of the entry")
        loop = AllPositions(m, claim)
        with loops.cut(CC, "matrix_to_graph", {0: loop}):
            g = CC.matrix_to_graph(m)
        c.true(isinstance(g, Graph) and getattr(g, "finished", False) and not g.added, "the graph that was built")
        nodes_are(c, g, m.shape[0], m.shape[1])
        c.true((getattr(g, "order", None) is FieldMatrix.order) == over_field, "the order of the field is remembered")
    P("matrix to graph: the edges are the nonzero entries, with their values", "ClassicalCode.matrix_to_graph", classical, min_paths=4)

    class EdgeLoop(loops.Loop):
        mutates = loops.ANY

        def __init__(self, g, split, data):
            self.g, self.split, self.data = g, split, data

        def enter(self, it, env):
            if not isinstance(it, Edges) or it.g is not self.g:
                raise Unsupported("the loop runs over something else")
            self.m = next((v for v in env.values() if isinstance(v, Matrix)), None)
            if self.m is None or any(env.get(r) is not self.m for r in self.roots):
                raise Unsupported("the loop modifies something else")
            CTX[-1].claims.true(not self.m.writes, "the matrix is zero before the loop")

        def item(self, env):
            self.ends = Node(SInt("i"), is_data=False), Node(SInt("j"), is_data=True)
            return (*self.ends, self.data)

        def havoc(self, env):
            self.m.writes = []
            return {}

        def back(self, env):
            c = CTX[-1].claims
            c.true(len(self.m.writes) == 1, "one entry for each edge")
            k, v = self.m.writes[0]
            i, j = (e.index.z for e in self.ends)
            if self.split:
                c.true(isinstance(k, tuple) and len(k) == 3 and k[1] == slice(None), "both halves of one qudit are set")
                c.valid(z3.And(scalar.term(k[0]) == i, scalar.term(k[2]) == j), "the edge from check i to qudit j sets row i, qudit j")
                c.true(tuple(v) == tuple(self.want), "the entries are the exponents of the operator")
            else:
                c.true(isinstance(k, tuple) and len(k) == 2, "one entry is set")
                c.valid(z3.And(scalar.term(k[0]) == i, scalar.term(k[1]) == j), "the edge from check i to bit j sets entry (i, j)")
                c.true(v is self.want or v == self.want, "the entry is the value of the edge")

        def done(self, env):
            self.m.writes = []

    class Counted(Graph):
        """A graph with r check nodes and n data nodes."""

        def __init__(self):
            super().__init__()
            self.total = None

        def nodes(self):
            return Nodes()

    class Nodes:
        def __len__(self):
            raise Unsupported("number of nodes")

        def __iter__(self):
            CTX[-1].open_nodes = True
            return iter([Node(SInt("some"), is_data=CTX[-1].decide("the node is a data node"))])

    def sym_sum(it, start=0):
        out = list(it)
        if getattr(CTX[-1], "open_nodes", False):
            CTX[-1].open_nodes = False
            isdata = dict(CTX[-1].log)["the node is a data node"]
            CTX[-1].claims.true((len(out) == 1 and bool(out[0])) == isdata and all(bool(x) == isdata and builtins.int(x) == 1 for x in out if x), "data nodes are counted")
            return SInt("n")
        return builtins.sum(out, start)

    def sym_len(x):
        return SInt(z3.Int("r") + z3.Int("n")) if isinstance(x, Nodes) else builtins.len(x)

    def back_classical(ctx, c, F):
        g = Counted()
        known = ctx.decide("the order of the field is known")
        g.order = 7 if known else (lambda: 3)
        val = object()
        has = ctx.decide("the edge carries a value")
        loop = EdgeLoop(g, False, {"val": val} if has else {})
        loop.want = val if has else 1
        with loops.cut(CC, "graph_to_matrix", {0: loop}):
            m = CC.graph_to_matrix(g)
        c.true(isinstance(m, FieldMatrix) and m.order == (7 if known else 2) and not m.writes, "a matrix over the field of the graph, or GF(2)")
        c.valid(z3.And(scalar.term(m.shape[0]) == z3.Int("r"), scalar.term(m.shape[1]) == z3.Int("n")), "one row for each check node, one column for each data node")
    P("graph to matrix: the entries are the values of the edges, all others are zero", "ClassicalCode.graph_to_matrix", back_classical,
      min_paths=4, sum=sym_sum, len=sym_len)

    def back_quantum(ctx, c, F):
        g = Counted()
        known = ctx.decide("the order of the field is known")
        g.order = 7 if known else (lambda: 3)
        kind = ctx.decide("the edge carries a qudit operator")
        x, z = (SInt("x"), SInt("z")) if kind else (1, 1)
        op = QuditOperator((x, z)) if kind else Pauli.Y
        loop = EdgeLoop(g, True, {QuditOperator if kind else Pauli: op})
        loop.want = op.value
        with loops.cut(QC, "graph_to_matrix", {0: loop}):
            m = QC.graph_to_matrix(g)
        c.true(isinstance(m, Matrix) and getattr(m, "joined", False) and m.cast == (7 if known else 2) and not m.writes, "a matrix over the field of the graph, or GF(2)")
        c.valid(z3.And(scalar.term(m.shape[0]) == z3.Int("r"), scalar.term(m.shape[2]) == z3.Int("n")), "one row for each check node, two columns for each data node")
    P("graph to matrix (quantum): the entries are the exponents of the operators at the edges", "QuditCode.graph_to_matrix", back_quantum,
      min_paths=4, sum=sym_sum, len=sym_len)

    def quantum(ctx, c, F):
        """One position adds its value to one exponent of the operator at the edge; two positions share an edge."""
        global XZ
        XZ = 0 if ctx.decide("X half") else 1
        m = Matrix("H", (SInt("r"), SInt("n2")))
        assume(z3.And(m.shape[1].z >= 0, m.shape[1].z % 2 == 0))
        first = ctx.decide("the first entry of this edge")
        ox, oz = SInt("ox"), SInt("oz")  # what the other half has contributed so far; this half has not been visited
        assume((ox if XZ == 0 else oz).z == 0)
        if not first:
            assume((oz if XZ == 0 else ox).z >= 1)  # an operator that is there comes from a nonzero entry

        def start(d):
            if not first:
                d["edge"] = {QuditOperator: QuditOperator((ox, oz))}

        def claim(c, g, pos):
            c.true(len(g.added) == 1, "one edge")
            a, b = g.added[0]
            c.true(not a.is_data and b.is_data, "edges go from checks to qudits")
            c.valid(z3.And(scalar.term(a.index) == pos[0].z, scalar.term(b.index) == pos[2].z), "the edge of entry (r, xz, c) joins check r and qudit c")
            op = g.data["edge"].get(QuditOperator)
            c.true(isinstance(op, QuditOperator) and set(g.data["edge"]) == {QuditOperator}, "the edge carries an operator")
            new = Entry(split, pos).value().z
            old = (z3.IntVal(0), z3.IntVal(0)) if first else (ox.z, oz.z)
            c.valid(z3.And(scalar.term(op.value[XZ]) == new, scalar.term(op.value[1 - XZ]) == old[1 - XZ]), "the exponent is the entry, the other exponent is kept")
        split = Matrix("H", (m.shape[0], 2, SInt(m.shape[1].z / 2)), None, True)
        loop = AllPositions(split, claim, start)
        with loops.cut(QC, "matrix_to_graph", {0: loop}):
            g = QC.matrix_to_graph(m)
        nodes_are(c, g, m.shape[0], SInt(m.shape[1].z / 2))
    class ToPauli(loops.Loop):
        mutates = loops.ANY

        def enter(self, it, env):
            if not isinstance(it, Edges):
                raise Unsupported("the loop runs over something else")

        def havoc(self, env):
            return {}

        def item(self, env):
            ctx = CTX[-1]
            self.v = (builtins.int(ctx.decide("x = 1")), builtins.int(ctx.decide("z = 1")))
            self.d = {QuditOperator: QuditOperator(self.v)}
            return Node(0, is_data=False), Node(0), self.d

        def back(self, env):
            CTX[-1].claims.true(self.d == {Pauli: Pauli(self.v)}, "the operator of an edge becomes the Pauli operator with the same exponents")

    def qubits(ctx, c, F):
        q2 = ctx.decide("qubits")
        m = FieldMatrix("H", (SInt("r"), SInt("n2")))
        m.__dict__.pop("order")
        FieldMatrix.order = 2 if q2 else 3
        assume(z3.And(m.shape[1].z >= 0, m.shape[1].z % 2 == 0))
        split = Matrix("H", (m.shape[0], 2, SInt(m.shape[1].z / 2)), None, True)
        with loops.cut(QC, "matrix_to_graph", {0: AllPositions(split, lambda c, g, pos: None), 1: ToPauli()}):
            g = QC.matrix_to_graph(m)
        c.true(g.order == FieldMatrix.order, "the order of the field is remembered")
    P("matrix to graph (quantum): qubit operators become Pauli operators, the field is remembered", "QuditCode.matrix_to_graph", qubits, min_paths=4)

    P("matrix to graph (quantum): operators at the edges have the entries as exponents", "QuditCode.matrix_to_graph", quantum, min_paths=8)
