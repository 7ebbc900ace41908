"""Encoding circuits (C15): contracts on the live functions for qubit codes of every size.

The operators that get_encoding_tableau hands to stim satisfy the commutation relations of single-qubit Paulis, start
with the logical operators, go on with the gauge operators, and end with the canonical stabilizers, whatever the code
is. stim builds the tableau with these images (it raises if the relations do not hold), and the circuit of a tableau.
"""
from __future__ import annotations

import builtins

import numpy as np
import stim

from vf import env, lemma  # noqa: F401
from vf.sym import loops, mat, shim
from vf.sym.mat import CTX, Dim, Sel, Unsupported
from vf.sym.prove import prove

from .blocks import comm, one, row_halves

from qldpc import circuits, codes, math as qmath
from qldpc.codes import common, quantum
from qldpc.objects import Pauli

MODS = [common, quantum, qmath, circuits]
P = "qldpc.circuits."
TRUSTED = shim.TRUSTED + [
    "stim: Tableau.from_conjugated_generators(xs, zs) is the Clifford operation that maps X_j to xs[j] and Z_j to zs[j] (it raises if their commutation relations are not those of X_j, Z_j); to_circuit, inverse and then are the circuit, the inverse and the composition of tableaus; PauliString products",
    "numpy.argmax of the rows of a boolean matrix is the position of the first True of each row",
    "get_logical_ops, get_gauge_ops, get_stabilizer_ops obey the contracts of C02 and C05 (dual pairs; mutually commuting groups), with k + g + (number of canonical stabilizers) = n",
    "linear algebra: in a reduced row echelon form the column of the first nonzero entry of a row is a unit vector; a binary vector is orthogonal to itself in the symplectic product",
]
F2 = (shim.SymField2,)
FIRST = ["X", "Z"]


class Matrices:
    """The operators of an arbitrary qubit code, with rows of stabilizers and destabilizers cut into given segments."""

    def __init__(self, F, empty):
        self.F, self.empty = F, empty
        two = lambda name, rows: mat.matrix(F, rows, ["n", "n"], {(i, j): f"{name}{i}{FIRST[j]}" for i in range(len(rows)) for j in range(2)})  # noqa: E731
        self.two = two
        self.logical, self.gauge = two("L", ["k", "k"]), two("G", ["g", "g"])
        for a in (self.logical, self.gauge):
            x, z = row_halves(a)
            for e in (comm(x, x), comm(z, z), comm(x, z) - one(F, x.axes[0].segs)):
                shim.assume_zero(e)
        shim.assume_zero(comm(self.logical, self.gauge))
        self.rows = [] if empty else ["1", "q"]
        CTX[-1].sizes["n"] = Dim.of("k") + Dim.of("g") + (Dim.of(0) if empty else Dim.of("q") + 1)
        self.stabs = two("S", self.rows)
        self.stab_facts(self.stabs)
        CTX[-1].__dict__.setdefault("rref", []).append(self.stabs.copy())
        self.kept = dict(L=self.logical.copy(), G=self.gauge.copy(), S=self.stabs.copy())

    def given(self):
        raise Unsupported("stabilizers that are not canonical")

    def stab_facts(self, s):
        for e in (comm(s, s), comm(s, self.logical), comm(s, self.gauge)):
            shim.assume_zero(e)

    def destab_facts(self, s, d, done):
        """d: dual to the stabilizers s, and orthogonal to everything else; the rows `done` are orthogonal to each other."""
        for e in self.relations(s, d):
            shim.assume_zero(e)
        shim.assume_zero(comm(d[done, :], d[done, :]))

    def relations(self, s, d):
        return comm(d, s) - one(self.F, s.axes[0].segs), comm(d, self.logical), comm(d, self.gauge)


def put(a, b):
    """Give the array a the contents (and segments) of b."""
    a.axes, a.cells = list(b.axes), dict(b.cells)
    a.version += 1


class Zip:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Enumerated:
    def __init__(self, a, start):
        self.a, self.start = a, start


def zip_(*a, **k):
    if len(a) == 2 and isinstance(a[0], mat.SymArr) and isinstance(a[1], shim.Pivots):
        return Zip(*a)
    if any(isinstance(x, (mat.SymArr, shim.Pivots)) for x in a):
        raise Unsupported("zip")
    return builtins.zip(*a, **k)


def enumerate_(a, start=0):
    return Enumerated(a, start) if isinstance(a, mat.SymArr) else builtins.enumerate(a, start)


def argmax(a, axis=None, **k):
    if isinstance(a, mat.SymArr):
        if axis not in (1, -1):
            raise Unsupported("argmax")
        for r in CTX[-1].__dict__.get("rref", []):
            if shim.same(r, a):
                return shim.Pivots(r)
        raise Unsupported("first entries of a matrix that is not known to be reduced")
    return np.argmax(a, axis=axis, **k)


class Pivot:
    """The first nonzero column of an arbitrary row of the stabilizers, plus some halves of the row."""

    def __init__(self, half):
        self.half = half  # position = half * n + x for an arbitrary 0 <= x < n

    def _shift(self, d):
        d = Dim.of(d)
        for t in range(-4, 5):
            if d.same(Dim.of("n") * t):
                return t
        raise Unsupported(f"position of a pivot plus {d}")

    def __add__(self, d):
        return Pivot(self.half + self._shift(d))

    __radd__ = __add__

    def __sub__(self, d):
        return Pivot(self.half - self._shift(d))

    def __mod__(self, d):
        t = self._shift(d)
        if t <= 0:
            raise Unsupported("modulus")
        return Pivot(self.half % t)

    def __lt__(self, d):
        return self.half < self._shift(d)

    def __ge__(self, d):
        return not self < d

    def __floordiv__(self, d):
        if self._shift(d) != 1:
            raise Unsupported("quotient")
        return self.half

    def _no(self, *a):
        raise Unsupported("use of a pivot")

    __index__ = __int__ = __eq__ = __bool__ = __le__ = __gt__ = __rsub__ = __mul__ = _no
    __hash__ = None


class UnitRow:
    """An arbitrary row of a zero matrix, that entries are written to."""

    def __init__(self):
        self.entries = []

    def __setitem__(self, idx, value):
        if not isinstance(idx, Pivot):
            raise Unsupported("position in a row")
        self.entries.append((idx.half, value))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a row")


class Candidates(loops.Loop):
    """for destab_op, pivot in zip(destab_ops, pivots): one entry, at the partner of the pivot."""

    mutates = ("destab_op",)

    def __init__(self, c, m):
        self.c, self.m = c, m

    def enter(self, it, env):
        if not isinstance(it, Zip):
            raise Unsupported("iteration")
        self.d = it.a._use()
        if not shim.is_zero(self.d) or not shim.same(it.b.arr, self.m.stabs) or self.d.axes != self.m.stabs.axes:
            raise Unsupported("another way to find destabilizers")

    def more(self, env):
        return False if self.m.empty else super().more(env)

    def item(self, env):
        self.half = 0 if CTX[-1].decide("the pivot is in the X half") else 1
        self.row = UnitRow()
        return self.row, Pivot(self.half)

    def back(self, env):
        if len(self.row.entries) != 1 or self.row.entries[0][1] != 1:
            raise Unsupported("candidate destabilizers with several entries")
        self.c.true(self.row.entries == [(1 - self.half, 1)], "the candidate is the single-qubit operator that anticommutes with the pivot")

    def done(self, env):
        m = self.m
        put(self.d, m.two("C", m.rows))  # row i: symplectic product with stabilizer j = entry of j at the pivot of i
        shim.assume_zero(comm(self.d, m.stabs) - one(m.F, m.stabs.axes[0].segs))


class Orthogonalization(loops.Loop):
    """The destabilizers before the current one commute with each other; all stay dual to the stabilizers."""

    mutates = ("destab_op", "destab_ops")

    def __init__(self, c, m):
        self.c, self.m = c, m

    def base(self, a):
        return a if a.base is None else self.base(a.base)

    def enter(self, it, env):
        m, c = self.m, self.c
        if isinstance(it, Enumerated):
            self.pairs, start, a = True, it.start, it.a._use()
        elif isinstance(it, shim.SymRange):
            self.pairs, start, a = False, it.start, None
            if it.step != 1:
                raise Unsupported("range")
        else:
            raise Unsupported("iteration")
        self.d = self.base(a) if a is not None else env.get("destab_ops")
        if not isinstance(self.d, mat.SymArr):
            raise Unsupported("destabilizers")
        self.d._use()
        if not m.empty:
            first = Dim.of(start).const()
            if first not in (0, 1):
                raise Unsupported("first row")
            self.first = first
            rows = Sel(0, 1) if first == 0 else Sel(1)
            if a is not None:
                c.true(a.axes == self.d[rows, :].axes and shim.is_zero(a - self.d[rows, :]), "the rows from the first one on are visited")
            else:
                c.true(Dim.of(it.n).same(self.d.shape[0]), "all rows are visited")
        for e, what in zip(m.relations(m.stabs, self.d), WHAT):
            c.zero(e, what)

    def havoc(self, env):
        m = self.m
        if m.empty:
            return {}
        m.rows = ["p", "1", "t"]
        put(m.stabs, m.two("R", m.rows))
        m.stab_facts(m.stabs)
        self.stabs = m.stabs.copy()
        put(self.d, m.two("D", m.rows))
        m.destab_facts(m.stabs, self.d, Sel(0))
        self.before = self.d.copy()
        return {}

    def more(self, env):
        return False if self.m.empty else super().more(env)

    def item(self, env):
        p = Dim.of("p")
        return (p, self.d[p]) if self.pairs else p

    def back(self, env):
        m, c, d = self.m, self.c, self.d
        c.equal(m.stabs, self.stabs, "stabilizers are not changed")
        c.equal(d[Sel(0), :], self.before[Sel(0), :], "finished destabilizers are not changed")
        for e, what in zip(m.relations(m.stabs, d), WHAT):
            c.zero(e, what)
        c.zero(comm(d[Sel(1), :], d[Sel(0), :]), "the destabilizer commutes with the earlier ones")

    def done(self, env):
        m = self.m
        if m.empty:
            return
        m.rows = ["1", "q"]
        put(m.stabs, m.kept["S"])
        put(self.d, m.two("E", m.rows))
        m.destab_facts(m.stabs, self.d, Sel(0, 1))


WHAT = ["destabilizers are dual to the stabilizers", "destabilizers commute with logical operators", "destabilizers commute with gauge operators"]


class Row:
    """An arbitrary row of a segment of a matrix."""

    def __init__(self, arr, i):
        self.arr, self.i = arr, i

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a row")


class Text:
    """The Pauli string of an arbitrary row."""

    def __init__(self, row, signed=False):
        self.row, self.signed = row, signed


class Texts:
    """A list of Pauli strings, one for each row of some matrices."""

    def __init__(self, parts):
        self.parts = list(parts)  # (matrix, strings of which row)

    def __add__(self, o):
        if isinstance(o, list) and not o:
            return self
        if not isinstance(o, Texts):
            raise Unsupported("concatenation")
        return Texts(self.parts + o.parts)

    __iadd__ = __add__

    def __radd__(self, o):
        if isinstance(o, list) and not o:
            return self
        raise Unsupported("concatenation")

    def matrix(self):
        return mat.stack([p.arr[Sel(p.i), :] for p in self.parts], 0)


def rows_of(arr):
    return [Row(arr, i) for i in range(len(arr.axes[0].segs))]


def strings_of(self, cond, elt):
    """[op_to_string(op) for op in matrix]"""
    out = []
    for r in rows_of(self._use()):
        if not cond(r):
            raise Unsupported("selection of rows")
        t = elt(r)
        if not isinstance(t, Text) or t.row is not r:
            raise Unsupported("a list of something else than the strings of the rows")
        out.append(r)
    return Texts(out)


class AnyCode(codes.QuditCode):
    """A qubit code given by its contracts."""

    __module__ = "qldpc.codes.common"  # its len is that of the code

    def __init__(self, m):
        self.m, self.calls = m, []

    def __len__(self):
        return Dim.of("n")

    field = property(lambda self: self.m.F)
    dimension = property(lambda self: Dim.of("k"))
    gauge_dimension = property(lambda self: Dim.of("g"))
    num_qudits = property(lambda self: Dim.of("n"))

    def _part(self, a, pauli):
        if pauli is None:
            return a
        return a[Sel(FIRST.index(str(pauli))), :]

    def get_logical_ops(self, pauli=None, **k):
        if k:
            raise Unsupported("arguments")
        return self._part(self.m.logical, pauli)

    def get_gauge_ops(self, pauli=None, **k):
        if k:
            raise Unsupported("arguments")
        return self._part(self.m.gauge, pauli)

    def get_stabilizer_ops(self, pauli=None, canonicalized=False, **k):
        if pauli is not None or k:
            raise Unsupported("arguments")
        return self.m.stabs if canonicalized else self.m.given()


def names(made, **more):
    class Tableaus:
        @staticmethod
        def from_conjugated_generators(*, xs, zs):
            made.append((xs, zs))
            return made

        def __getattr__(self, name):
            raise Unsupported(f"stim.Tableau.{name}")

    return dict(zip=zip_, enumerate=enumerate_, np=shim.Shim(shim.np_shim(), argmax=argmax),
                stim=shim.Shim(stim, Tableau=Tableaus()), **more)


class comprehensions:
    """Comprehensions over the rows of symbolic matrices, also nested ones."""

    def __enter__(self):
        mat.SymArr.comprehension = strings_of
        self.plain = loops.NESTED[0]
        loops.NESTED[0] = self.nested
        return self

    @staticmethod
    def nested(parts):
        if any(isinstance(p, Texts) for p in parts):
            out = Texts([])
            for p in parts:
                out = out + p
            return out
        return [x for p in parts for x in p]

    def __exit__(self, *e):
        del mat.SymArr.comprehension
        loops.NESTED[0] = self.plain


def tableau(h):
    def body(ctx, c, F):
        m = Matrices(F, ctx.decide("no stabilizers"))
        code = AnyCode(m)
        made = []
        signed = []

        def to_string(op):
            if not isinstance(op, Row):
                raise Unsupported("string of something else than a row")
            return Text(op)

        def stabilizers(x):
            c.true(x is code, "the signs of the stabilizers of this code")
            signed.append(Texts(rows_of(m.stabs)))
            return signed[-1]

        live = circuits.__dict__["get_encoding_tableau"]
        inner = live.__wrapped__
        circuits.get_encoding_tableau = inner
        try:
            with comprehensions(), shim.patched(circuits, **names(made, op_to_string=to_string, _get_signed_stabilizers=stabilizers)), \
                    loops.cut(circuits, "get_encoding_tableau", {0: Candidates(c, m), 1: Orthogonalization(c, m)}):
                got = circuits.get_encoding_tableau(code)
        finally:
            circuits.get_encoding_tableau = live
        c.true(len(made) == 1 and got is made, "the result is the tableau of the generators")
        xs, zs = made[0]
        if not isinstance(xs, Texts) or not isinstance(zs, Texts):
            raise Unsupported("generators")
        x, z = xs.matrix(), zs.matrix()
        k = len(m.rows)
        segs = [("k",), ("g",)] + [(r,) for r in m.rows]
        c.true(list(x.axes[0].segs) == segs and list(z.axes[0].segs) == segs, "as many X and Z operators as qubits: logical, gauge, (de)stabilizers")
        lx, lz = row_halves(m.kept["L"])
        gx, gz = row_halves(m.kept["G"])
        c.equal(x[Sel(0), :], lx, "X of the first qubits become the logical X operators")
        c.equal(z[Sel(0), :], lz, "Z of the first qubits become the logical Z operators")
        c.equal(x[Sel(1), :], gx, "X of the next qubits become the X gauge operators")
        c.equal(z[Sel(1), :], gz, "Z of the next qubits become the Z gauge operators")
        c.equal(z[Sel(*range(2, 2 + k)), :], m.kept["S"], "Z of the remaining qubits become the stabilizers")
        c.zero(comm(x, x), "images of X operators commute")
        c.zero(comm(z, z), "images of Z operators commute")
        c.zero(comm(x, z) - one(F, segs), "images of X and Z are dual pairs")
        c.true(all(any(p is s for t in signed for s in t.parts) for p in zs.parts[2:]), "the stabilizers have the signs of products of checks")
        for a, key in ((m.logical, "L"), (m.gauge, "G"), (m.stabs, "S")):
            c.equal(a, m.kept[key], "operators of the code are not changed")

    prove(h, "the operators of the encoding tableau satisfy the relations of single-qubit Paulis", P + "get_encoding_tableau", body, MODS, fields=F2, min_paths=4)


# ---- signs of the stabilizers


class Given:
    """Some generators of the stabilizer group, as many as there are."""

    def __init__(self, F):
        self.F = F
        self.gens = mat.matrix(F, ["r"], ["n", "n"], {(0, 0): "GX", (0, 1): "GZ"}, owner="stabilizers of the code")

    def given(self):
        return self.gens

    @property
    def stabs(self):
        raise Unsupported("canonical stabilizers")

    logical = gauge = stabs


class Reduced:
    """u @ a in reduced row echelon form on its first columns."""

    def __init__(self, a, ncols):
        self.a, self.ncols = a, ncols

    def __getitem__(self, idx):
        if isinstance(idx, Mask):
            return Chosen(self, idx.arr)
        return self.a[idx]

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a reduced matrix")


class Mask:
    def __init__(self, arr):
        self.arr = arr


class Chosen:
    """The rows of a reduced matrix in which some columns are not all zero."""

    def __init__(self, reduced, where):
        self.reduced, self.where = reduced, where


class Vector:
    """An arbitrary one of these rows."""

    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, idx):
        return Vector(self.arr[:, idx])

    def view(self, *a):
        return self

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a row")


class Support:
    """The nonzero positions of an arbitrary row."""

    def __init__(self, arr):
        self.arr = arr


class Position:
    def __init__(self, support):
        self.support = support


class Product:
    """A product of Pauli strings: those of the rows of `texts` at the support of `factors` (None: of none), then more."""

    def __init__(self, factors=None, texts=None, more=()):
        self.factors, self.texts, self.more = factors, texts, list(more)

    def __mul__(self, o):
        if not isinstance(o, Text):
            raise Unsupported("product of strings")
        return Product(self.factors, self.texts, self.more + [o])

    def __rmul__(self, o):
        return self * o

    def __imul__(self, o):
        self.more = (self * o).more
        return self

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a product")


class Strings(Texts):
    def __getitem__(self, idx):
        if not isinstance(idx, Position):
            raise Unsupported("element of a list of strings")
        return Text((self, idx))


class Rows(loops.Loop):
    mutates = loops.ANY

    def __init__(self, c, given):
        self.c, self.given = c, given

    def enter(self, it, env):
        if not isinstance(it, Chosen):
            raise Unsupported("iteration")
        self.it = it
        lists = [n for n in self.roots if isinstance(env.get(n), list)]
        if len(lists) != 1 or env[lists[0]]:
            raise Unsupported("collected results")
        self.out = env[lists[0]]

    def item(self, env):
        self.row = Vector(self.it.reduced.a)
        return self.row

    def back(self, env):
        c = self.c
        if len(self.out) != 1 or not isinstance(self.out[0], Product) or self.out[0].more or self.out[0].factors is None:
            raise Unsupported("collected results")
        p = self.out[0]
        a = self.it.reduced.a[:, Sel(0, 1)]
        c.equal(p.texts.matrix(), self.given.gens, "factors are the strings of the stabilizers")
        c.equal(p.factors @ p.texts.matrix(), a, "the product of the factors is the canonical stabilizer")
        c.equal(self.it.where, a, "exactly the rows with a nonzero stabilizer are kept")

    def done(self, env):
        del self.out[:]
        self.out.append(ALL)


ALL = object()


class Factors(loops.Loop):
    mutates = loops.ANY

    def __init__(self, c):
        self.c = c

    def enter(self, it, env):
        if not isinstance(it, Support):
            raise Unsupported("iteration")
        self.it = it
        self.names = [n for n, v in env.items() if isinstance(v, Product)]
        if len(self.names) != 1 or env[self.names[0]].more or env[self.names[0]].factors is not None:
            raise Unsupported("product")
        if not self.roots <= set(self.names):
            raise Unsupported("modification of other objects")
        self.texts = [v for v in env.values() if isinstance(v, Strings)]
        if len(self.texts) != 1:
            raise Unsupported("strings")

    def havoc(self, env):
        self.partial = Product()
        return {self.names[0]: self.partial}

    def item(self, env):
        self.pos = Position(self.it)
        return self.pos

    def back(self, env):
        p = env[self.names[0]]
        if not isinstance(p, Product):
            raise Unsupported("product")
        self.c.true(len(p.more) == 1 and p.more[0].row[0] is self.texts[0] and p.more[0].row[1] is self.pos, "each factor is multiplied once")

    def done(self, env):
        p = env[self.names[0]]
        p.factors, p.texts = self.it.arr, self.texts[0]


def signs(h):
    def body(ctx, c, F):
        given = Given(F)
        code = AnyCode(given)
        real = F.__dict__.get("row_reduce")

        def row_reduce(a, ncols=None, **k):
            if k or ncols is None:
                raise Unsupported("row reduction")
            if a.axes[0].segs != (("r",),):
                raise Unsupported("rows")
            u, v = (mat.matrix(F, ["r"], ["r"], {(0, 0): x}) for x in ("U", "V"))
            for e in (u @ v - one(F, ["r"]), v @ u - one(F, ["r"])):
                shim.assume_zero(e)
            c.equal(a[:, slice(None, ncols)], given.gens, "the stabilizers are reduced")
            return Reduced(u @ a, ncols)

        def any_(a, axis=None, **k):
            if isinstance(a, mat.SymArr) and axis in (1, -1) and not k:
                return Mask(a)
            return shim.np_any(a, axis=axis, **k)

        def flatnonzero(a):
            if isinstance(a, Vector):
                return Support(a.arr)
            raise Unsupported("flatnonzero")

        def identity(n):
            if not (isinstance(n, Dim) and n.same("n")):
                raise Unsupported("Pauli string")
            return Product()

        def to_string(op):
            if not isinstance(op, Row):
                raise Unsupported("string of something else than a row")
            return Text(op)

        class Listed(comprehensions):
            def __enter__(self):
                super().__enter__()
                mat.SymArr.comprehension = lambda a, cond, elt: Strings(strings_of(a, cond, elt).parts)

        F.row_reduce = row_reduce
        try:
            with Listed(), shim.patched(circuits, np=shim.Shim(shim.np_shim(), any=any_, flatnonzero=flatnonzero), op_to_string=to_string,
                                        stim=shim.Shim(stim, PauliString=identity)), \
                    loops.cut(circuits, "_get_signed_stabilizers", {0: Rows(c, given), 1: Factors(c)}):
                got = circuits._get_signed_stabilizers(code)
        finally:
            if real is None:
                del F.row_reduce
            else:
                F.row_reduce = real
        c.true(isinstance(got, list) and got == [ALL], "the strings of all canonical stabilizers are returned")
        c.untouched()

    prove(h, "canonical stabilizers get the signs that they have as products of parity checks", P + "_get_signed_stabilizers", body, MODS, fields=F2, min_paths=3)


# ---- strings of operators


class Operator:
    """The 2n entries of an arbitrary Pauli operator on n qubits."""

    def __init__(self, shape=None):
        self.shape = shape if shape is not None else (2 * Dim.of("n"),)

    def __len__(self):
        raise Unsupported("length outside the shim")

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if len(shape) == 2 and shape[0] == 2 and (isinstance(shape[1], Dim) and shape[1].same("n") or isinstance(shape[1], int) and shape[1] == -1):
            return Operator((2, Dim.of("n")))
        raise Unsupported("reshape")

    def __getitem__(self, idx):
        if len(self.shape) == 2 and isinstance(idx, tuple) and len(idx) == 2 and idx[0] in (0, 1) and isinstance(idx[1], Qubit) and idx[1].half == 0:
            return idx[1].bits()[idx[0]]
        if len(self.shape) == 1 and isinstance(idx, Qubit) and idx.half in (0, 1):
            return idx.bits()[idx.half]
        raise Unsupported("entry of an operator")

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of an operator")


class Qubit:
    """An arbitrary qubit (plus some halves)."""

    def __init__(self, half=0, known=None):
        self.half, self.known = half, known if known is not None else []

    def bits(self):
        if not self.known:
            self.known[:] = [int(CTX[-1].decide("acts as X")), int(CTX[-1].decide("acts as Z"))]
        return self.known

    def __add__(self, d):
        if not (isinstance(d, Dim) and d.same("n")):
            raise Unsupported("qubit plus something")
        return Qubit(self.half + 1, self.known)

    __radd__ = __add__
    __hash__ = None

    def __index__(self):
        raise Unsupported("number of an arbitrary qubit")


class Qubits:
    def __init__(self, n):
        if not n.same("n"):
            raise Unsupported("range")

    def __iter__(self):
        raise Unsupported("iteration over all qubits")

    def comprehension(self, cond, elt):
        q = Qubit()
        if not cond(q):
            raise Unsupported("selection of qubits")
        return Letters(q, elt(q))


class Letters:
    """One value for each qubit."""

    def __init__(self, q, value):
        self.q, self.value = q, value


def strings(h):
    def body(ctx, c, F):
        made = []

        def array(a, dtype=None, **k):
            if isinstance(a, Operator) and dtype in (int, bool, None, np.int_, np.uint8):
                return a
            raise Unsupported("array")

        def string(x):
            made.append(x)
            return made

        def map_(f, *a):
            if len(a) == 1 and isinstance(a[0], Letters):
                return Letters(a[0].q, f(a[0].value))
            return builtins.map(f, *a)

        with shim.patched(qmath, np=shim.Shim(np, array=array, asarray=array), range=lambda *a: Qubits(*a) if len(a) == 1 and isinstance(a[0], Dim) else builtins.range(*a),
                          stim=shim.Shim(stim, PauliString=string), len=lambda x: x.shape[0] if isinstance(x, Operator) else builtins.len(x)), \
                extra_name(qmath, "map", map_), loops.cut(qmath, "op_to_string", {}):
            got = qmath.op_to_string(Operator())
        c.true(got is made and len(made) == 1, "one string")
        x = made[0]
        if not isinstance(x, Letters):
            raise Unsupported("string")
        want = {(0, 0): "I_", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[tuple(x.q.bits())]
        c.true(isinstance(x.value, str) and len(x.value) == 1 and x.value in want, f"entries {x.q.bits()} stand for {want[0]}")

    prove(h, "op_to_string: each qubit gets the Pauli operator of its two entries", "qldpc.math.op_to_string", body, [qmath], fields=F2, min_paths=4)


class extra_name:
    """Set a name of a module that it may not have (a builtin)."""

    def __init__(self, module, name, value):
        self.args, self.value = (module, name), value

    def __enter__(self):
        self.had = self.args[1] in vars(self.args[0])
        self.old = vars(self.args[0]).get(self.args[1])
        setattr(*self.args, self.value)

    def __exit__(self, *e):
        if self.had:
            setattr(*self.args, self.old)
        else:
            delattr(*self.args)


# ---- the functions around


class Token:
    """A tableau made by stim; operations on it are recorded."""

    def __init__(self, *what):
        self.what = what

    def inverse(self, **k):
        if k:
            raise Unsupported("arguments")
        if self.what[0] == "inverse":
            return self.what[1]
        return Token("inverse", self)

    def to_circuit(self, *a, **k):
        if a and a != ("elimination",) or k not in ({}, {"method": "elimination"}):
            raise Unsupported("method")
        return Token("circuit", self)

    def then(self, o):
        return Token("then", self, o)

    def __call__(self, p):
        return Token("image", self, p)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a tableau")


class Plain:
    """A stand-in for a code: its field has a given order; everything else is unknown."""


def plain_code(order):
    class Code(codes.QuditCode):
        def __init__(self):
            pass

        field = property(lambda self: type("Field", (), {"order": order}))

        def __getattr__(self, name):
            raise Unsupported(f"attribute {name} of a code")

    return Code()


def around(h):
    def circuit(ctx, c, F):
        code, asked = plain_code(2), []

        def tableau_(x):
            asked.append(x)
            return Token("encoder")

        with shim.patched(circuits, get_encoding_tableau=tableau_):
            got = circuits.get_encoding_circuit(code)
        c.true(len(asked) == 1 and asked[0] is code and isinstance(got, Token) and got.what[0] == "circuit" and got.what[1].what == ("encoder",),
               "the encoding circuit is the circuit of the encoding tableau")

    prove(h, "the encoding circuit is that of the encoding tableau", P + "get_encoding_circuit", circuit, [circuits], plain=True)

    def pair(ctx, c, F):
        code, asked = plain_code(2), []
        other = plain_code(2)
        deformed = []

        def tableau_(x):
            asked.append(x)
            return Token("encoder of", x)

        code.deformed = lambda *a, **k: deformed.append((a, k)) or other
        with shim.patched(circuits, get_encoding_tableau=tableau_):
            if ctx.decide("no deformation"):
                e, d = circuits.get_encoder_and_decoder(code)
                c.true(not deformed and e.what == ("encoder of", code), "encoder")
                c.true(d.what[0] == "inverse" and d.what[1].what == ("encoder of", code), "the decoder is the inverse of the encoder")
            else:
                how = stim.Circuit("H 0")
                e, d = circuits.get_encoder_and_decoder(code, how)
                c.true(e.what == ("encoder of", code), "encoder")
                c.true(d.what[0] == "inverse" and d.what[1].what == ("encoder of", other), "the decoder is that of the deformed code")
                c.true(len(deformed) == 1 and deformed[0][0][0] is how and (deformed[0][1].get("preserve_logicals") or deformed[0][0][1:2] == (True,)), "deformed with its logical operators preserved")

    prove(h, "decoders invert encoders, of the deformed code if there is a deformation", P + "get_encoder_and_decoder", pair, [circuits], plain=True, min_paths=2)

    def rejected(ctx, c, F):
        from vf.sym import scalar
        q = scalar.SInt("q")
        scalar.assume(q >= 2)
        called = []

        def inner(*a, **k):
            called.append((a, k))
            return called

        code = plain_code(q)
        f = circuits.restrict_to_qubits(inner)
        keyword = ctx.decide("by keyword")
        try:
            got = f(1, code=code) if keyword else f(code, 1, other=None)
        except ValueError:
            c.true(not called, "rejected before anything is done")
            c.valid(q.z != 2, "only codes over other fields are rejected")
            return
        c.valid(q.z == 2, "a code over another field is accepted")
        c.true(got is called and called[0] == (((1,), {"code": code}) if keyword else ((code, 1), {"other": None})), "arguments and result are passed on")

    prove(h, "constructors of circuits reject codes over other fields", P + "restrict_to_qubits", rejected, [circuits], plain=True, min_paths=4)


def encoding_lemmas(h):
    lemma.check(h, "Encoding")
